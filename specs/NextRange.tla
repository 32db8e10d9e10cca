----------------------------- MODULE NextRange -----------------------------
(* Rust-style iterators adapted by next_to_iter / next_back_to_reverse_iter, next_to_range and   *)
(* next_to_view. The underlying sequence has n elements 1..n; a view may have dropped the first  *)
(* lo of them. Iterators are numbered slots; every iterator remembers the part [a, b) of the     *)
(* sequence it was created for and how many elements it has passed.                              *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N, NI,      \* longest sequence, number of iterator slots
          Copy, Nth,  \* the underlying iterator is copyable, has nth() and nth_back()
          Adv, Write, \* histories contain view.advance(), writes through the iterator
          MaxPlus
VARIABLES s, lab

I == 1..NI
T(x) == ToString(x)
No == [d |-> "-", a |-> 0, b |-> 0, c |-> 0, k |-> FALSE, w |-> FALSE]
Min(x, y) == IF x < y THEN x ELSE y
Left(i) == i.b - i.a - i.c
Val(i, off) == IF i.d = "f" THEN i.a + i.c + off + 1 ELSE i.b - i.c - off
Cur(i) == IF i.d = "-" THEN "-" ELSE IF Left(i) <= 0 THEN "end" ELSE IF i.w THEN "99" ELSE T(Val(i, 0))
Peek(i) == IF Left(i) <= 1 THEN "none" ELSE T(Val(i, 1))
Step(i, m) == IF m = 0 THEN i ELSE [i EXCEPT !.c = Min(@ + m, i.b - i.a), !.k = FALSE, !.w = FALSE]

RECURSIVE Show(_, _)
Show(its, j) == IF j > NI THEN "" ELSE " " \o Cur(its[j]) \o Show(its, j + 1)
Do(op, r, t) == s' = t /\ lab' = <<op, r \o Show(t.its, 1)>>

Init == s = [n |-> 0, lo |-> 0, its |-> [j \in I |-> No]] /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

RECURSIVE Up(_, _), Down(_, _)
Up(x, y) == IF x > y THEN "" ELSE T(x) \o "," \o Up(x + 1, y)
Down(x, y) == IF x < y THEN "" ELSE T(x) \o "," \o Down(x - 1, y)

Make == \E n \in 0..N : Do("make " \o T(n), "ok", [n |-> n, lo |-> 0, its |-> [j \in I |-> No]])
\* everything the range and the view say about their sequence
Whole == LET len == s.n - s.lo IN
  Do("whole", Up(1, s.n) \o "/" \o Down(s.n, 1)
     \o (IF Copy THEN " " \o T(s.n) \o (IF s.n = 0 THEN "TF" ELSE "FT") ELSE "")
     \o (IF Copy THEN " " \o Up(s.lo + 1, s.n) \o "/" \o Down(s.n, s.lo + 1) \o " " \o T(len) \o (IF len = 0 THEN "TF" ELSE "FT")
                      \o (IF len = 0 THEN "" ELSE T(s.lo + 1) \o "." \o T(s.n)) \o (IF Nth THEN "[" \o Up(s.lo + 1, s.n) ELSE "") ELSE ""), s)
Advance == Copy /\ Nth /\ Adv /\ \E m \in 0..(N + 1) : Do("advance " \o T(m), "ok", [s EXCEPT !.lo = Min(@ + m, s.n)])
Begin == \E j \in I, d \in {"f", "b", "rev"}, o \in {"r", "v"} :
  /\ o = "r" \/ Copy
  /\ Do("begin " \o T(j) \o " " \o d \o " " \o o, "ok",
        [s EXCEPT !.its[j] = [d |-> IF d = "f" THEN "f" ELSE "b", a |-> IF o = "r" THEN 0 ELSE s.lo, b |-> s.n, c |-> 0, k |-> FALSE, w |-> FALSE]])
Live == {j \in I : s.its[j].d # "-"}
Ops == \E j \in Live : LET i == s.its[j] IN
  \/ Do("inc " \o T(j), "ok", [s EXCEPT !.its[j] = Step(i, 1)])
  \/ Do("post " \o T(j), IF Copy THEN Cur(i) ELSE "ok", [s EXCEPT !.its[j] = Step(i, 1)])
  \/ Do("peek " \o T(j), Peek(i), [s EXCEPT !.its[j].k = Left(i) > 1])
  \/ Write /\ Left(i) > 0 /\ Do("write " \o T(j), "ok", [s EXCEPT !.its[j].w = TRUE])
  \/ Nth /\ \E m \in 0..MaxPlus : Do("add " \o T(j) \o " " \o T(m), "ok", [s EXCEPT !.its[j] = Step(i, m)])
  \/ \E l \in I : l # j /\
       \/ Nth /\ Copy /\ \E m \in 0..MaxPlus : Do("plus " \o T(l) \o " " \o T(j) \o " " \o T(m), "ok", [s EXCEPT !.its[l] = Step(i, m)])
       \/ Copy /\ Do("copy " \o T(l) \o " " \o T(j), "ok", [s EXCEPT !.its[l] = i])
       \/ Do("move " \o T(l) \o " " \o T(j), "ok", [s EXCEPT !.its[l] = i, !.its[j] = No])

Next == Make \/ Whole \/ Advance \/ Begin \/ Ops
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))

TypeOK == \A j \in I : LET i == s.its[j] IN i.c <= i.b - i.a /\ (i.k => Left(i) > 1) /\ i.d \in {"-", "f", "b"}
\* the element an increment moves to is the peeked one
PeekIsNext == \A j \in Live : Cur(Step(s.its[j], 1)) = (IF Peek(s.its[j]) = "none" THEN "end" ELSE Peek(s.its[j]))
=============================================================================
