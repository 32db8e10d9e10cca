------------------------------ MODULE RangeAlgo ------------------------------
(* The range algorithms by definition over the element sequence. Elements are 1, 2, 3; with Nan  *)
(* the element 3 is not equal to anything and not ordered (a floating point NaN).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS L,     \* longest sequence
          L2,    \* longest sequence where two are compared
          Nan
VARIABLES s, lab

E == 1..3
Seqs(n) == UNION {[1..k -> E] : k \in 0..n}
RECURSIVE W(_)
W(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o W(Tail(q))
Name(q) == IF q = <<>> THEN "_" ELSE W(q)
B(x) == IF x THEN "T" ELSE "F"
T(x) == ToString(x)

Eq(x, y) == x = y /\ ~(Nan /\ x = 3)
\* equality predicates: the usual one, "both odd or both even", "the difference is at most one" (not transitive), never
Eqs == {"eq", "par", "near", "never"}
Eqp(p, x, y) == CASE p = "eq" -> Eq(x, y) [] p = "par" -> (x - y) % 2 = 0 [] p = "near" -> x - y \in {-1, 0, 1} [] OTHER -> FALSE
Preds == {"ge2", "is1", "odd", "yes", "no"}
Pred(p, x) == CASE p = "ge2" -> x >= 2 [] p = "is1" -> x = 1 [] p = "odd" -> x % 2 = 1 [] p = "yes" -> TRUE [] OTHER -> FALSE

RECURSIVE Unique(_, _), Remove(_, _, _)
Unique(q, seen) == IF q = <<>> THEN <<>>
                   ELSE IF \E k \in 1..Len(seen) : Eq(seen[k], Head(q)) THEN Unique(Tail(q), seen)
                   ELSE <<Head(q)>> \o Unique(Tail(q), Append(seen, Head(q)))
Remove(q, v, p) == IF q = <<>> THEN <<>> ELSE (IF Eqp(p, Head(q), v) THEN <<>> ELSE <<Head(q)>>) \o Remove(Tail(q), v, p)
AllEqual(q, p) == \A k \in 2..Len(q) : Eqp(p, q[k], q[1])
AllDistinct(q, p) == \A j, k \in 1..Len(q) : j # k => ~Eqp(p, q[j], q[k])
\* orders: less, greater; projections: identity, negated, divided by two
Proj(pr, x) == CASE pr = "id" -> x [] pr = "neg" -> -x [] OTHER -> x \div 2
Less(c, x, y) == IF c = "less" THEN x < y ELSE x > y
Sorted(q, c, pr) == \A k \in 1..(Len(q) - 1) : Less(c, Proj(pr, q[k]), Proj(pr, q[k + 1]))
\* three-way comparison of elements and of sequences
Cmp3(x, y, nan) == IF nan THEN "un" ELSE IF x < y THEN "lt" ELSE IF x > y THEN "gt" ELSE "eq"
Flip(r) == CASE r = "lt" -> "gt" [] r = "gt" -> "lt" [] OTHER -> r
ElemCmp(c, p1, p2, x, y) == LET r == Cmp3(Proj(p1, x), Proj(p2, y), Nan /\ (x = 3 \/ y = 3)) IN IF c = "rev" THEN Flip(r) ELSE r
RECURSIVE Lex(_, _, _, _, _)
Lex(a, b, c, p1, p2) == IF a = <<>> THEN IF b = <<>> THEN "eq" ELSE "lt"
                        ELSE IF b = <<>> THEN "gt"
                        ELSE LET r == ElemCmp(c, p1, p2, Head(a), Head(b)) IN IF r # "eq" THEN r ELSE Lex(Tail(a), Tail(b), c, p1, p2)

Do(op, r) == s' = s /\ lab' = <<op, r>>
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
One == \E q \in Seqs(L) :
  \/ ~Nan /\ \E p \in Preds :
       \/ Do("all_of " \o Name(q) \o " " \o p, B(\A k \in 1..Len(q) : Pred(p, q[k])))
       \/ Do("any_of " \o Name(q) \o " " \o p, B(\E k \in 1..Len(q) : Pred(p, q[k])))
       \/ Do("none_of " \o Name(q) \o " " \o p, B(~\E k \in 1..Len(q) : Pred(p, q[k])))
  \/ Do("empty " \o Name(q), B(q = <<>>) \o B(q # <<>>))
  \/ \E p \in IF Nan THEN {"eq"} ELSE Eqs : Do("all_equal " \o Name(q) \o " " \o p, B(AllEqual(q, p)))
  \/ \E p \in {"eq", "never"} : Do("all_distinct " \o Name(q) \o " " \o p, B(AllDistinct(q, p)))
  \/ Do("unique " \o Name(q), Name(Unique(q, <<>>)))
  \/ \E v \in E, p \in IF Nan THEN {"eq"} ELSE Eqs : Do("remove " \o Name(q) \o " " \o T(v) \o " " \o p, Name(Remove(q, v, p)))
  \/ ~Nan /\ \E c \in {"less", "greater"}, pr \in {"id", "neg", "half"} : Do("sorted " \o Name(q) \o " " \o c \o " " \o pr, B(Sorted(q, c, pr)))
Two == \E a, x \in Seqs(L2) :
  \/ Do("lex " \o Name(a) \o " " \o Name(x) \o " std id id", Lex(a, x, "std", "id", "id"))
  \/ ~Nan /\ Do("lex " \o Name(a) \o " " \o Name(x) \o " rev id id", Lex(a, x, "rev", "id", "id"))
  \/ ~Nan /\ Do("lex " \o Name(a) \o " " \o Name(x) \o " std neg neg", Lex(a, x, "std", "neg", "neg"))
  \/ ~Nan /\ Do("lex " \o Name(a) \o " " \o Name(x) \o " std half id", Lex(a, x, "std", "half", "id"))
  \/ ~Nan /\ Do("lex " \o Name(a) \o " " \o Name(x) \o " rev id half", Lex(a, x, "rev", "id", "half"))
Next == One \/ Two
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))

\* consequences of the definitions
Consistent == \A q \in Seqs(3) :
  /\ AllDistinct(q, "eq") <=> Unique(q, <<>>) = q
  /\ (~Nan /\ Sorted(q, "less", "id")) => AllDistinct(q, "eq")
  /\ (~Nan /\ Len(q) > 1 /\ AllEqual(q, "eq")) => Len(Unique(q, <<>>)) = 1
  /\ \A r \in Seqs(2) : Lex(q, r, "std", "id", "id") = Flip(Lex(r, q, "std", "id", "id"))
=============================================================================
