-------------------------------- MODULE Long --------------------------------
(* Tuples of many elements and variants of many alternatives. Element k of a tuple holds the number  *)
(* (7 * k) % 10, except for at most one element, which holds another number; the history starts with  *)
(* such a tuple each time. What = "tuple" or "variant". Results of many elements: count and checksum. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS What, N
VARIABLES s, lab
T(x) == ToString(x)
Places == {k \in {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, N \div 2, N - 1, N} : 1 <= k /\ k <= N}
Base(k) == (7 * k) % 10
\* tuple: element j holds v (j = 0: none is changed)
Tup(j, v) == [k \in 1..N |-> IF k = j THEN v ELSE Base(k)]
Tuples == {<<0, 0>>} \cup (Places \X {5, 23})
RECURSIVE Sum(_, _, _)
Sum(q, k, h) == IF k > Len(q) THEN h ELSE Sum(q, k + 1, (h * 31 + q[k]) % 65521)
Show(q) == T(Len(q)) \o "#" \o T(Sum(q, 1, 0))
Cmp(a, b) == LET D == {k \in 1..N : a[k] # b[k]} IN IF D = {} THEN "=" ELSE LET k == CHOOSE x \in D : \A y \in D : x <= y IN IF a[k] < b[k] THEN "<" ELSE ">"
Do(op, r) == s' = s /\ lab' = <<op, r>>
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Name(d) == " " \o T(d[1]) \o " " \o T(d[2])
OfTuple == \E d \in Tuples : LET t == Tup(d[1], d[2]) IN
  \/ \E k \in Places, c \in {"lvalue", "const", "rvalue"} : Do("get" \o Name(d) \o " " \o T(k) \o " " \o c, T(t[k]))
  \/ \E k \in Places, v \in {0, 77} : Do("set" \o Name(d) \o " " \o T(k) \o " " \o T(v), Show([t EXCEPT ![k] = v]))
  \/ \E w \in {"each", "eachconst", "eachrvalue", "fold", "pointers", "copy", "move", "assign", "massign"} : Do(w \o Name(d), Show(t))
  \/ \E e \in Tuples : Do("cmp" \o Name(d) \o Name(e), Cmp(t, Tup(e[1], e[2])))
  \/ \E k \in Places, c \in {"lvalue", "const"} : Do("sub" \o Name(d) \o " " \o T(k) \o " " \o T(N) \o " " \o c, Show(SubSeq(t, k, N)))
  \/ \E k \in Places : Do("sub" \o Name(d) \o " 1 " \o T(k) \o " lvalue", Show(SubSeq(t, 1, k)))
OfVariant == \E k \in Places, v \in {0, 3} :
  \/ \E w \in {"emplace", "value", "inplace", "copy", "move", "assign", "massign"} : Do(w \o " " \o T(k) \o " " \o T(v), T(k) \o ":" \o T(v))
  \/ \E j \in Places : \/ Do("holds " \o T(k) \o " " \o T(v) \o " " \o T(j), IF j = k THEN "T" ELSE "F")
                       \/ Do("get " \o T(k) \o " " \o T(v) \o " " \o T(j), IF j = k THEN T(v) ELSE "bad_variant_access")
                       \/ \E u \in {0, 3} : Do("cmp " \o T(k) \o " " \o T(v) \o " " \o T(j) \o " " \o T(u),
                                               IF k < j \/ (k = j /\ v < u) THEN "<" ELSE IF k = j /\ v = u THEN "=" ELSE ">")
Next == IF What = "tuple" THEN OfTuple ELSE OfVariant
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
