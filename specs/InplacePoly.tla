---------------------------- MODULE InplacePoly ----------------------------
(* inplace_polymorphic<Base, A, B, C>: two containers, each holding one object of a derived      *)
(* type or none, with exceptions in every constructor and copy/move function.                    *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Kind    \* "full" everything may throw, "noex" nothing throws, "triv" trivially destructible,
                  \* "conly" no move function, "monly" no copy function, "mixed" B's constructors do not throw
VARIABLES s, lab

V == {1, 2}
Alts == {"A", "B", "C"}
Vals == {0, 1}
M == 9
T(x) == ToString(x)
Other(k) == 3 - k
Thr(a) == Kind # "noex"                          \* virtual functions share one noexcept specification
CtorThr(a) == Kind # "noex" /\ ~(Kind = "mixed" /\ a = "B")
HasCopy == Kind # "monly"
HasMove == Kind # "conly"

None == [a |-> "N", x |-> 0]
Obj(a, x) == [a |-> a, x |-> x]
Marked(o) == IF o.a = "N" \/ ~HasMove THEN o ELSE [o EXCEPT !.x = M]
Show(o) == IF o.a = "N" THEN "N" ELSE o.a \o T(o.x)
Do(op, r, t) == s' = t /\ lab' = <<op, r \o "|" \o Show(t[1]) \o "|" \o Show(t[2])>>

Init == s = <<Obj("A", 0), Obj("A", 0)>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

\* construction; if it throws no container comes into being (the old one stays in its slot)
New == \E k \in V :
  \/ Do("def " \o T(k), "ok", [s EXCEPT ![k] = Obj("A", 0)])
  \/ CtorThr("A") /\ Do("!def " \o T(k), "thr", s)
  \/ \E a \in Alts, x \in Vals : Do("new " \o T(k) \o " " \o a \o " " \o T(x), "ok", [s EXCEPT ![k] = Obj(a, x)])
  \/ \E a \in Alts : CtorThr(a) /\ Do("!new " \o T(k) \o " " \o a \o " 1", "thr", s)
  \/ HasCopy /\ Do("newc " \o T(k) \o " " \o T(Other(k)), "ok", [s EXCEPT ![k] = s[Other(k)]])
  \/ HasCopy /\ s[Other(k)].a # "N" /\ Thr(s[Other(k)].a) /\ Do("!newc " \o T(k) \o " " \o T(Other(k)), "thr", s)
  \/ Do("newm " \o T(k) \o " " \o T(Other(k)), "ok", [s EXCEPT ![k] = s[Other(k)], ![Other(k)] = Marked(@)])
  \/ s[Other(k)].a # "N" /\ Thr(s[Other(k)].a) /\ Do("!newm " \o T(k) \o " " \o T(Other(k)), "thr", s)
Assign == \E k \in V : LET o == Other(k) IN
  \/ HasCopy /\ Do("asg " \o T(k) \o " " \o T(o), "ok", [s EXCEPT ![k] = s[o]])
  \/ HasCopy /\ Do("asg " \o T(k) \o " " \o T(k), "ok", s)
  \/ HasCopy /\ s[o].a # "N" /\ Thr(s[o].a) /\ Do("!asg " \o T(k) \o " " \o T(o), "thr", [s EXCEPT ![k] = None])
  \/ Do("masg " \o T(k) \o " " \o T(o), "ok", [s EXCEPT ![k] = s[o], ![o] = Marked(@)])
  \/ s[o].a # "N" /\ Thr(s[o].a) /\ Do("!masg " \o T(k) \o " " \o T(o), "thr", [s EXCEPT ![k] = None])
Emplace == \E k \in V, a \in Alts :
  \/ \E x \in Vals : Do("emp " \o T(k) \o " " \o a \o " " \o T(x), "ok", [s EXCEPT ![k] = Obj(a, x)])
  \/ CtorThr(a) /\ Do("!emp " \o T(k) \o " " \o a \o " 1", "thr", [s EXCEPT ![k] = None])
\* writing through the base interface
Set == \E k \in V, x \in Vals, f \in {"get", "star", "arrow"} :
  Do("set " \o T(k) \o " " \o f \o " " \o T(x), IF s[k].a = "N" THEN "bad_variant_access" ELSE "ok",
     IF s[k].a = "N" THEN s ELSE [s EXCEPT ![k].x = x])

Next == New \/ Assign \/ Emplace \/ Set
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))

TypeOK == \A k \in V : s[k].a \in Alts \cup {"N"} /\ s[k].x \in Vals \cup {M}
NeverValuelessWithoutThrow == Kind = "noex" => \A k \in V : s[k].a # "N"
=============================================================================
