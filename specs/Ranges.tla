------------------------------ MODULE Ranges ------------------------------
(* Half-open ranges of integral constants of any width and signedness. Numbers are written      *)
(* a*Q + o as a point <<a, o>>: Q is a quarter of the number of values of the type, so that the  *)
(* same ranges describe every width; a signed type has the values -2Q .. 2Q-1, an unsigned one   *)
(* 0 .. 4Q-1.                                                                                    *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Signed

\* points <<a, o>> in the order of their values (offsets are small compared with Q)
Le(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Lt(x, y) == Le(x, y) /\ x # y
MinP == IF Signed THEN <<-2, 0>> ELSE <<0, 0>>
MaxP == IF Signed THEN <<2, -1>> ELSE <<4, -1>>
MidA == IF Signed THEN 0 ELSE 2
InT(x) == Le(MinP, x) /\ Le(x, MaxP)
\* n steps from x
Plus(x, n) == <<x[1], x[2] + n>>
\* number of values from x up to y, for points next to the same multiple of Q
Dist(x, y) == y[2] - x[2]

N(x) == ToString(x[1]) \o ":" \o ToString(x[2])

\* ---- the ranges that are instantiated (the harness instantiates the same list, by these indices)
Ranges == <<
  << <<MidA, 0>>, <<MidA, 5>> >>,   << <<MidA, 5>>, <<MidA, 0>> >>,   << <<MidA, 3>>, <<MidA, 4>> >>,
  << <<MidA, 4>>, <<MidA, 3>> >>,   << <<MidA, 2>>, <<MidA, 2>> >>,   << <<MidA, -3>>, <<MidA, 4>> >>,
  << <<MidA, 4>>, <<MidA, -3>> >>,  << MinP, Plus(MinP, 3) >>,        << Plus(MinP, 3), MinP >>,
  << Plus(MaxP, -3), MaxP >>,       << MaxP, Plus(MaxP, -3) >>,       << MinP, MinP >>,
  << MaxP, MaxP >>,                 << MinP, Plus(MinP, 1) >>,        << MaxP, Plus(MaxP, -1) >>,
  << <<MidA, -1>>, <<MidA, 1>> >>,  << <<MidA, 1>>, <<MidA, -9>> >>,  << <<MidA, -9>>, <<MidA, 1>> >> >>
Lo(r) == IF Le(r[1], r[2]) THEN r[1] ELSE r[2]
Hi(r) == IF Le(r[1], r[2]) THEN r[2] ELSE r[1]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o Join(Tail(q))
RangeSeq(r) == IF Le(r[1], r[2]) THEN [k \in 1..Dist(r[1], r[2]) |-> N(Plus(r[1], k - 1))]
               ELSE [k \in 1..Dist(r[2], r[1]) |-> N(Plus(r[1], 1 - k))]
=============================================================================
