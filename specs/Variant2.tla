------------------------------ MODULE Variant2 ------------------------------
(* Abstract specification of variant2<A, B>: two variant objects, each holding an object of  *)
(* alternative "A" or "B" or nothing ("N"), with exceptions at every throwing special member. *)
(* One action per public operation; s is the abstract state, lab = <<operation, observation>>.*)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS KA, KB     \* kind of alternative A / B: which special members exist, throw, mark their source

VARIABLES s, lab

Vals == {0, 1}
M == 9               \* value of a moved-from object

\* cp: copyable, cc/mc: copy/move constructor may throw, ca/ma: copy/move assignment may throw,
\* vc: value constructor may throw, xc/xa: move construction/assignment marks its source
Kind(k) ==
  CASE k = "triv"  -> [cp |-> TRUE,  cc |-> FALSE, mc |-> FALSE, ca |-> FALSE, ma |-> FALSE, vc |-> FALSE, xc |-> FALSE, xa |-> FALSE]
    [] k = "full"  -> [cp |-> TRUE,  cc |-> TRUE,  mc |-> TRUE,  ca |-> TRUE,  ma |-> TRUE,  vc |-> TRUE,  xc |-> TRUE,  xa |-> TRUE]
    [] k = "noex"  -> [cp |-> TRUE,  cc |-> FALSE, mc |-> FALSE, ca |-> FALSE, ma |-> FALSE, vc |-> FALSE, xc |-> TRUE,  xa |-> TRUE]
    [] k = "atriv" -> [cp |-> TRUE,  cc |-> TRUE,  mc |-> TRUE,  ca |-> FALSE, ma |-> FALSE, vc |-> TRUE,  xc |-> TRUE,  xa |-> FALSE]
    [] k = "cctor" -> [cp |-> TRUE,  cc |-> TRUE,  mc |-> TRUE,  ca |-> FALSE, ma |-> FALSE, vc |-> TRUE,  xc |-> TRUE,  xa |-> FALSE]
    [] k = "conly" -> [cp |-> TRUE,  cc |-> TRUE,  mc |-> TRUE,  ca |-> TRUE,  ma |-> TRUE,  vc |-> TRUE,  xc |-> FALSE, xa |-> FALSE]
    [] k = "nmove" -> [cp |-> TRUE,  cc |-> TRUE,  mc |-> FALSE, ca |-> TRUE,  ma |-> FALSE, vc |-> TRUE,  xc |-> TRUE,  xa |-> TRUE]
    [] k = "monly" -> [cp |-> FALSE, cc |-> FALSE, mc |-> TRUE,  ca |-> FALSE, ma |-> TRUE,  vc |-> TRUE,  xc |-> TRUE,  xa |-> TRUE]

K(a) == IF a = "A" THEN Kind(KA) ELSE Kind(KB)
Alts == {"A", "B"}
Copyable == Kind(KA).cp /\ Kind(KB).cp

None == [a |-> "N", x |-> 0]
Obj(a, x) == [a |-> a, x |-> x]
Marked(o, marks) == IF o.a # "N" /\ marks THEN [o EXCEPT !.x = M] ELSE o

Show(o) == IF o.a = "N" THEN "N" ELSE o.a \o (IF o.x = M THEN "M" ELSE ToString(o.x))
Obs(r, t) == r \o "|" \o Show(t[1]) \o "|" \o Show(t[2])

Do(op, r, t) == s' = t /\ lab' = <<op, Obs(r, t)>>

V == {1, 2}
Str(v) == ToString(v)

Init == /\ s = <<Obj("A", 0), Obj("A", 0)>>
        /\ lab = <<"init", "">>
        /\ PrintT("@I" \o ToJson(s))

\* ---- construction: a fresh variant replaces slot v (only if the constructor succeeds)
Fresh(v) ==
  \/ Do("new " \o Str(v) \o " def", "ok", [s EXCEPT ![v] = Obj("A", 0)])
  \/ \E a \in Alts, x \in Vals, form \in {"mv", "type", "index"} :
        Do("new " \o Str(v) \o " " \o form \o " " \o a \o " " \o ToString(x), "ok", [s EXCEPT ![v] = Obj(a, x)])
  \/ \E a \in Alts, x \in Vals : K(a).cp /\
        Do("new " \o Str(v) \o " cp " \o a \o " " \o ToString(x), "ok", [s EXCEPT ![v] = Obj(a, x)])
  \* construction throws: no variant comes into being
  \/ \E a \in Alts, form \in {"mv", "cp", "type", "index"} :
        /\ CASE form = "mv" -> K(a).mc [] form = "cp" -> K(a).cp /\ K(a).cc [] OTHER -> K(a).vc
        /\ Do("!new " \o Str(v) \o " " \o form \o " " \o a \o " 1", "thr", s)
  \* from another variant (possibly the one that is replaced)
  \/ \E w \in V : Copyable /\ Do("newc " \o Str(v) \o " " \o Str(w), "ok", [s EXCEPT ![v] = s[w]])
  \/ \E w \in V : Copyable /\ s[w].a # "N" /\ K(s[w].a).cc /\ Do("!newc " \o Str(v) \o " " \o Str(w), "thr", s)
  \/ \E w \in V : v # w /\ Do("newm " \o Str(v) \o " " \o Str(w), "ok",
                     [s EXCEPT ![v] = s[w], ![w] = Marked(s[w], s[w].a # "N" /\ K(s[w].a).xc)])
  \/ \E w \in V : v # w /\ s[w].a # "N" /\ K(s[w].a).mc /\ Do("!newm " \o Str(v) \o " " \o Str(w), "thr", s)

\* ---- assignment from the other variant
Assign(v, w) ==
  LET old == s[v]  src == s[w]  same == old.a = src.a IN
  \/ Copyable /\ Do("asg " \o Str(v) \o " " \o Str(w), "ok", [s EXCEPT ![v] = src])
  \/ /\ Copyable /\ v # w /\ src.a # "N"
     /\ IF same THEN K(src.a).ca ELSE K(src.a).cc
     /\ Do("!asg " \o Str(v) \o " " \o Str(w), "thr", [s EXCEPT ![v] = IF same THEN old ELSE None])
  \/ v # w /\ Do("masg " \o Str(v) \o " " \o Str(w), "ok",
                [s EXCEPT ![v] = src, ![w] = Marked(src, src.a # "N" /\ IF same THEN K(src.a).xa ELSE K(src.a).xc)])
  \/ /\ v # w /\ src.a # "N"
     /\ IF same THEN K(src.a).ma ELSE K(src.a).mc
     /\ Do("!masg " \o Str(v) \o " " \o Str(w), "thr", [s EXCEPT ![v] = IF same THEN old ELSE None])

\* ---- assignment of a value
SetVal(v, a, x) ==
  LET old == s[v]  same == old.a = a  o == " " \o Str(v) \o " " \o a \o " " \o ToString(x) IN
  \/ K(a).cp /\ Do("setc" \o o, "ok", [s EXCEPT ![v] = Obj(a, x)])
  \/ Do("setm" \o o, "ok", [s EXCEPT ![v] = Obj(a, x)])
  \/ /\ K(a).cp /\ (IF same THEN K(a).ca ELSE K(a).cc)
     /\ Do("!setc" \o o, "thr", [s EXCEPT ![v] = IF same THEN old ELSE None])
  \/ /\ IF same THEN K(a).ma ELSE K(a).mc
     /\ Do("!setm" \o o, "thr", [s EXCEPT ![v] = IF same THEN old ELSE None])

Emplace(v, a, x) ==
  \E form \in {"emt", "emi"} :
    LET o == form \o " " \o Str(v) \o " " \o a \o " " \o ToString(x) IN
    \/ Do(o, "ok", [s EXCEPT ![v] = Obj(a, x)])
    \/ K(a).vc /\ Do("!" \o o, "thr", [s EXCEPT ![v] = None])

Swap == \/ Do("swap", "ok", <<s[2], s[1]>>)
        \* a move inside swap throws: only the lifecycle guarantee is left; both are then re-emplaced
        \/ \E k \in 1..3 : Do("swapt " \o ToString(k), "ok", <<Obj("A", 0), Obj("B", 1)>>)

Next == \/ \E v \in V : Fresh(v)
        \/ \E v, w \in V : Assign(v, w)
        \/ \E v \in V, a \in Alts, x \in Vals : SetVal(v, a, x) \/ Emplace(v, a, x)
        \/ Swap

View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))

\* ---- properties of the specification itself
TypeOK == \A v \in V : s[v].a \in {"A", "B", "N"} /\ s[v].x \in {0, 1, M}
\* a variant is valueless only if some construction can throw or a valueless one was copied
ValuelessOnlyByException ==
  (\E v \in V : s[v].a = "N") => \E a \in Alts : K(a).cc \/ K(a).mc \/ K(a).vc
MarkedOnlyIfMoves == \A v \in V : s[v].x = M => K(s[v].a).xc \/ K(s[v].a).xa
=============================================================================
