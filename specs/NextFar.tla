------------------------------ MODULE NextFar ------------------------------
(* The adapters of rust-style iterators over sequences of every length: the elements are the     *)
(* numbers 0 .. n-1, where n, the offsets and the elements are counted as u * K + d with a small *)
(* d. The model uses K = 1000; the harness replaces it by a number of its own (up to 2^62), so   *)
(* that lengths and offsets lie next to the limits of narrower number types.                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT U    \* up to U * K elements
VARIABLES s, lab

K == 1000
T(x) == ToString(x)
Min(x, y) == IF x < y THEN x ELSE y
Around == {n \in {u * K + d : u \in 0..U, d \in -2..2} : n >= 0}
Lens == {n \in Around : n <= U * K}
Few == {0, 1, K - 1, K, K + 1}
Do(op, r) == s' = s /\ lab' = <<op, r>>
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

\* a view of n elements after advance(m): size, first, last and k-th element
View1 == \E n \in Lens, m \in Around, k \in Few :
  LET lo == Min(m, n) rest == n - lo IN
  Do("view " \o T(n) \o " " \o T(m) \o " " \o T(k),
     T(rest) \o (IF rest = 0 THEN " empty" ELSE " " \o T(lo) \o " " \o T(n - 1)) \o (IF k < rest THEN " " \o T(lo + k) ELSE ""))
\* an iterator of a sequence of n elements after += m, possibly a peek, += k (or +k) and one more step
At(d, n, c) == IF c >= n THEN "end" ELSE IF d = "f" THEN T(c) ELSE T(n - 1 - c)
Peek(d, n, c) == IF At(d, n, c + 1) = "end" THEN "none" ELSE At(d, n, c + 1)
Iter == \E d \in {"f", "b"}, n \in Lens, m \in Around, p \in BOOLEAN, k \in Few :
  LET c == Min(m, n) e == Min(c + k, n) IN
  Do("iter " \o d \o " " \o T(n) \o " " \o T(m) \o " " \o (IF p THEN "1" ELSE "0") \o " " \o T(k),
     At(d, n, c) \o (IF p THEN " " \o Peek(d, n, c) ELSE "") \o " " \o At(d, n, e) \o " " \o At(d, n, e + 1))
Next == View1 \/ Iter
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
