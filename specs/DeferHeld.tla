----------------------------- MODULE DeferHeld -----------------------------
(* Scope guards that are not bound to a block: they are kept in slots (on the heap) while stacks  *)
(* are unwound. A guard has failed if more exceptions are in flight when it is destroyed than     *)
(* when it was created; fewer (it was created while a stack was unwound) is not a failure.        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxU, Slots
VARIABLES s, lab
T(x) == ToString(x)
None == [k |-> "-", u |-> 0]
Fires(g) == g.k = "A" \/ (g.k = "F" /\ s.u > g.u) \/ (g.k = "S" /\ s.u <= g.u)
Do(op, t, o) == s' = t /\ lab' = <<op, o \o T(t.u) \o (IF t.u = 0 THEN "" ELSE "u")>>
Init == s = [u |-> 0, g |-> [i \in 1..Slots |-> None]] /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
\* an exception is thrown and the program goes on inside of a destructor that it runs
Unwind == s.u < MaxU /\ Do("unwind", [s EXCEPT !.u = @ + 1], "")
\* the destructor returns, and the exception is caught right outside of it
Caught == s.u > 0 /\ Do("end", [s EXCEPT !.u = @ - 1], "caught ")
Make == \E i \in 1..Slots, k \in {"A", "F", "S"} : s.g[i] = None /\ Do("make " \o T(i) \o " " \o k, [s EXCEPT !.g[i] = [k |-> k, u |-> s.u]], "")
Drop == \E i \in 1..Slots : s.g[i] # None /\ Do("drop " \o T(i), [s EXCEPT !.g[i] = None], IF Fires(s.g[i]) THEN "run " ELSE "")
Next == Unwind \/ Caught \/ Make \/ Drop
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
TypeOK == s.u \in 0..MaxU
\* exactly one of a fail and a success guard made at the same time would run
Exclusive == \A i \in 1..Slots : s.g[i] # None => ((Fires([k |-> "F", u |-> s.g[i].u])) # (Fires([k |-> "S", u |-> s.g[i].u])))
=============================================================================
