------------------------------ MODULE RangeLong ------------------------------
(* The range algorithms over long sequences, by definition as in RangeAlgo. A sequence is a pattern  *)
(* with at most one element changed: "inc" 1, 2, .., n; "dec" n, .., 1; "same" 7, 7, ..; "wrap"       *)
(* the numbers below m again and again. Results that are sequences are told by length and checksum.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Lens
VARIABLES s, lab
T(x) == ToString(x)
B(x) == IF x THEN "T" ELSE "F"
\* d: [pat, n, j the position changed (0: none), v the value there]
Elem(d, k) == IF k = d.j THEN d.v ELSE CASE d.pat = "inc" -> k [] d.pat = "dec" -> d.n + 1 - k [] d.pat = "same" -> 7 [] OTHER -> (k * 7) % 13
Seq0(d) == [k \in 1..d.n |-> Elem(d, k)]
Name(d) == d.pat \o " " \o T(d.n) \o " " \o T(d.j) \o " " \o T(d.v)
Places(n) == {1, 2, (n \div 2) + 1, n - 1, n} \cap 1..n
Descs == UNION {{[pat |-> p, n |-> n, j |-> 0, v |-> 0] : p \in {"inc", "dec", "same", "wrap"}}
                \cup {[pat |-> p, n |-> n, j |-> j, v |-> v] : p \in {"inc", "dec"}, j \in Places(n), v \in {1, (n \div 2) + 1, n, n + 5}}
                \cup {[pat |-> "same", n |-> n, j |-> j, v |-> 8] : j \in Places(n)} : n \in Lens}
Set(q) == {q[k] : k \in 1..Len(q)}
AllEqual(q) == \A k \in 2..Len(q) : q[k] = q[1]
\* distinct: as many values as elements
RECURSIVE Count(_)
Count(S) == IF S = {} THEN 0 ELSE 1 + Count(S \ {CHOOSE x \in S : TRUE})
FirstAt(q) == SelectSeq([k \in 1..Len(q) |-> k], LAMBDA k : \A i \in 1..(k - 1) : q[i] # q[k])
Unique(q) == LET f == FirstAt(q) IN [k \in 1..Len(f) |-> q[f[k]]]
AllDistinct(q) == Len(FirstAt(q)) = Len(q)
Without(q, v) == SelectSeq(q, LAMBDA x : x # v)
Sorted(q, c) == \A k \in 1..(Len(q) - 1) : IF c = "less" THEN q[k] < q[k + 1] ELSE q[k] > q[k + 1]
RECURSIVE Sum(_, _)
Sum(q, k) == IF k > Len(q) THEN 0 ELSE (Sum(q, k + 1) * 31 + q[k]) % 65521
Show(q) == T(Len(q)) \o "#" \o T(Sum(q, 1))
Lex(a, b) == LET D == {k \in 1..Len(a) : k <= Len(b) /\ a[k] # b[k]} IN
             IF D # {} THEN LET k == CHOOSE x \in D : \A y \in D : x <= y IN IF a[k] < b[k] THEN "lt" ELSE "gt"
             ELSE IF Len(a) = Len(b) THEN "eq" ELSE IF Len(a) < Len(b) THEN "lt" ELSE "gt"
Do(op, r) == s' = s /\ lab' = <<op, r>>
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
One == \E d \in Descs : LET q == Seq0(d) IN
  \/ \E v \in {7, d.n + 5} :
       \/ Do("all_not " \o Name(d) \o " " \o T(v), B(v \notin Set(q)))
       \/ Do("any_is " \o Name(d) \o " " \o T(v), B(v \in Set(q)))
       \/ Do("none_is " \o Name(d) \o " " \o T(v), B(v \notin Set(q)))
       \/ Do("remove " \o Name(d) \o " " \o T(v), Show(Without(q, v)))
  \/ Do("all_equal " \o Name(d), B(AllEqual(q)))
  \/ Do("all_distinct " \o Name(d), B(AllDistinct(q)))
  \/ Do("unique " \o Name(d), Show(Unique(q)))
  \/ \E c \in {"less", "greater"} : Do("sorted " \o Name(d) \o " " \o c, B(Sorted(q, c)))
  \/ \E p \in {"same", "shorter", "longer"} : LET b == [d EXCEPT !.j = 0, !.v = 0, !.n = CASE p = "same" -> d.n [] p = "shorter" -> d.n - 1 [] OTHER -> d.n + 1] IN
       Do("lex " \o Name(d) \o " " \o Name(b), Lex(q, Seq0(b)))
Next == One
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
\* consequences of the definitions
Consistent == \A d \in Descs : LET q == Seq0(d) IN d.n <= 20 => (AllDistinct(q) <=> Unique(q) = q) /\ (Sorted(q, "less") => AllDistinct(q)) /\ Len(Unique(q)) = Count(Set(q))
=============================================================================
