------------------------------ MODULE Forward ------------------------------
(* Function helpers: what a function receives and returns when it is called through them.         *)
(* Categories: l, cl lvalues, r, cr rvalues (c: const). Objects are numbered; bound objects are    *)
(* 1, 2, ..; further arguments 7, 8, ..; both are reported with the category in which they arrive. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxBound, MaxRest
VARIABLES s, lab     \* s: number of bound arguments of the bind_front object that exists, -1 .. as a sequence <<n>>
Cats == {"l", "cl", "r", "cr"}
T(n) == ToString(n)
Init == s = <<>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Do(op, r, t) == s' = t /\ lab' = <<op, r>>
Pure(op, r) == s = <<>> /\ Do(op, r, s)
RECURSIVE Words(_)
Words(q) == IF q = <<>> THEN "" ELSE " " \o q[1] \o Words(Tail(q))
Upto(n) == UNION {[1..k -> Cats] : k \in 0..n}
Count(q, P) == Cardinality({k \in 1..Len(q) : q[k] \in P})

\* bind_front
\* (to limit the number of instantiations, objects with arguments of mixed categories are made but not called)
Make == s = <<>> /\ \E q \in Upto(MaxBound) : LET same == \E c \in {"l", "r"} : \A k \in 1..Len(q) : q[k] = c IN
          Do((IF same THEN "make" ELSE "store") \o Words(q), "copies=" \o T(Count(q, {"l", "cl", "cr"})), IF same THEN <<Len(q)>> ELSE s)
Again == s # <<>> /\ (Do("copywrapper", "copies=" \o T(s[1]), s) \/ Do("movewrapper", "copies=0", s) \/ Do("drop", "", <<>>))
Rets == {"void", "value", "l", "cl", "r"}
Bound(self, n) == IF n = 0 THEN "" ELSE Words([k \in 1..n |-> T(k) \o self])
Rest(q) == Words([k \in 1..Len(q) |-> T(k + 6) \o q[k]])
Call == s # <<>> /\ \E self \in Cats, q \in Upto(MaxRest), r \in Rets : (Len(q) > 1 => r \in {"value", "l"}) /\
          Do("call " \o self \o " " \o r \o Words(q), "(" \o Bound(self, s[1]) \o Rest(q) \o " ) once copies=0 " \o r, s)
\* functions, pointers to members, functions that take some categories without exceptions only
Forms == \/ \E x \in {"function", "pointer", "member", "constmember", "data", "lambda", "functor", "moveonly", "array", "text", "refwrap", "constexpr"} : Pure("form " \o x, "ok")
         \/ \E self, c, b \in Cats : Pure("noexcept " \o self \o " " \o c \o " " \o b, IF self = "r" /\ c = "cl" THEN "T" ELSE "F")   \* only this combination does not throw

\* overloaded: the best of a set of functions with parameters V &, V const &, V &&, V const && and auto &&
Over == {"l", "cl", "r", "cr", "gen"}
Order(c) == CASE c = "l" -> <<"l", "gen", "cl">> [] c = "cl" -> <<"cl", "gen">> [] c = "r" -> <<"r", "gen", "cr", "cl">> [] c = "cr" -> <<"cr", "gen", "cl">>
Best(S, c) == LET o == Order(c) M == {k \in 1..Len(o) : o[k] \in S} IN IF M = {} THEN "none" ELSE o[CHOOSE k \in M : \A m \in M : k <= m]
RECURSIVE Set(_)
Set(S) == (IF "l" \in S THEN "l" ELSE "-") \o (IF "cl" \in S THEN "c" ELSE "-") \o (IF "r" \in S THEN "r" ELSE "-") \o (IF "cr" \in S THEN "k" ELSE "-") \o (IF "gen" \in S THEN "g" ELSE "-")
Overloaded == \E S \in SUBSET Over \ {{}}, c \in Cats : Pure("overloaded " \o Set(S) \o " " \o c, Best(S, c))
\* match: kind of variant, alternative that is held, category of the variant, category of the visitors, what they return
Kinds == {"std", "one", "variant2", "many"}
Match == \/ \E k \in Kinds, a \in 0..2, c \in Cats, v \in {"l", "cl", "r"}, r \in Rets : (k = "one" => a = 0) /\ (k = "variant2" => a < 2) /\
              Pure("match " \o k \o " " \o T(a) \o " " \o c \o " " \o v \o " " \o r, "visitor " \o T(a) \o " " \o T(a) \o c \o " once copies=0 " \o r)
         \/ \E a \in 0..2, c \in Cats : Pure("generic " \o T(a) \o " " \o c, (IF a = 1 THEN "special " ELSE "general ") \o T(a) \o c)
         \/ \E x \in {"valueless", "valueless2"} : Pure(x, "bad_variant_access")
         \/ \E a \in 0..1 : Pure("captures " \o T(a), "ok") \/ Pure("throwing " \o T(a), "thrown")
\* DICE_MEMFN: arguments named in the macro come first, as the expressions they are, at every call
Memfn == \/ \E q \in Upto(2), r \in Rets, o \in {"object", "const"} : Pure("memfn " \o o \o " " \o r \o Words(q), o \o " (" \o Rest(q) \o " ) once copies=0 " \o r)
         \/ \E q \in Upto(1), c \in {"l", "cl", "r"} : Pure("memfnbound " \o c \o Words(q), "object ( 1" \o c \o Rest(q) \o " ) once copies=0 value")
         \/ \E x \in {"evaluates", "identity", "range", "constobject", "overloads"} : Pure("memfnform " \o x, "ok")
\* DICE_DBG: returns the expression, prints one line
Dbg == \/ \E x \in {<<"l", "l same">>, <<"cl", "cl same">>, <<"r", "r same">>, <<"cr", "cr same">>} : Pure("dbg " \o x[1], x[2])
       \/ \E x \in {<<"int", "{f}:{l}] a * 2 = 4|">>, <<"braces", "{f}:{l}] t = {}{0}|">>, <<"string", "{f}:{l}] std::string(~%d~) + ~x~ = %dx|">>, <<"nested", "{f}:{l}] a + 1 = 3|[{f}:{l}] DICE_DBG(a + 1) * 2 = 6|">>,
                    <<"effects", "{f}:{l}] ++a = 3|">>, <<"unmovable", "{f}:{l}] u = u!|">>, <<"empty", "{f}:{l}] std::string() = |">>, <<"bool", "{f}:{l}] a == 2 = true|">>, <<"line", "{f}:{l}] n = x|y|">>} : Pure("dbgline " \o x[1], "[" \o x[2])
Next == Make \/ Again \/ Call \/ Forms \/ Overloaded \/ Match \/ Memfn \/ Dbg
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
