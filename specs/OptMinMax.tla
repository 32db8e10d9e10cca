------------------------------ MODULE OptMinMax ------------------------------
(* Minimum and maximum of sequences whose elements may be absent. An element is a key 1..3; its  *)
(* position tells equal keys apart, so ties are visible. 0 stands for an absent element.         *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT L
VARIABLES s, lab

Seqs(n) == UNION {[1..k -> 0..3] : k \in 0..n}
RECURSIVE W(_)
W(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o W(Tail(q))
Name(q) == IF q = <<>> THEN "_" ELSE W(q)
\* orders on the keys: the usual one, reversed, and one in which 1 and 3 are equivalent
Cmps == {"std", "less", "greater", "par"}
Less(c, x, y) == CASE c \in {"std", "less"} -> x < y [] c = "greater" -> x > y [] OTHER -> x % 2 < y % 2

Present(q) == {i \in 1..Len(q) : q[i] # 0}
\* the extreme elements, of them the first
Extreme(q, Better(_, _)) == LET P == Present(q)
                                X == {i \in P : \A j \in P : ~Better(q[j], q[i])} IN
                            IF P = {} THEN 0 ELSE CHOOSE i \in X : \A j \in X : i <= j
MinI(q, c) == LET B(x, y) == Less(c, x, y) IN Extreme(q, B)
MaxI(q, c) == LET B(x, y) == Less(c, y, x) IN Extreme(q, B)
Show(q, i) == IF i = 0 THEN "none" ELSE ToString(q[i]) \o "@" \o ToString(i)

Do(op, r) == s' = s /\ lab' = <<op, r>>
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Next == \E q \in Seqs(L), c \in Cmps :
  \/ Do("min " \o Name(q) \o " " \o c, Show(q, MinI(q, c)))
  \/ Do("max " \o Name(q) \o " " \o c, Show(q, MaxI(q, c)))
  \/ Do("minmax " \o Name(q) \o " " \o c, IF Present(q) = {} THEN "none" ELSE Show(q, MinI(q, c)) \o "," \o Show(q, MaxI(q, c)))
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
Dual == \A q \in Seqs(3) : MinI(q, "less") = MaxI(q, "greater")
=============================================================================
