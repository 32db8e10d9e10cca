------------------------- MODULE StaticStringAlloc -------------------------
(* Memory and allocator discipline of basic_static_string: two strings, each holding one buffer *)
(* (or none, if empty) that belongs to an allocator class. Operations may fail to allocate.     *)
(* Known strings have a specified content; after being moved from, or after a failed            *)
(* assignment, a string is valid but unspecified ("u"), possibly with an unspecified allocator. *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS POCCA, POCMA, POCS,   \* propagation traits of the allocator
          AE,                   \* all allocators are equal
          Lens, As              \* lengths and allocator classes

VARIABLES s, lab

V == {1, 2}
T(x) == ToString(x)
Other(k) == 3 - k
Mk(n, v, a) == [n |-> n, v |-> IF n = 0 THEN 0 ELSE v, a |-> a, u |-> FALSE]
U(a) == [n |-> 0, v |-> 0, a |-> a, u |-> TRUE]     \* a = 0: allocator not specified either
Eq(a, b) == AE \/ (a = b /\ a # 0)
Id(a) == IF AE THEN "" ELSE "@" \o T(a)
One(x) == IF x.u THEN "?" ELSE IF x.n = 0 THEN "0" ELSE T(x.n) \o "." \o T(x.v) \o Id(x.a)
Obs(t) == One(t[1]) \o "|" \o One(t[2])
Do(op, t, note) == s' = t /\ lab' = <<op, note \o Obs(t)>>
Op(name, k) == name \o " " \o T(k) \o " " \o T(Other(k))

Init == s = <<Mk(0, 0, 1), Mk(0, 0, 1)>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

Make == \E k \in V, n \in Lens, v \in {1, 2}, a \in As :
          /\ n = 0 => v = 1
          /\ Do("make " \o T(k) \o " " \o T(n) \o " " \o T(v) \o " " \o T(a), [s EXCEPT ![k] = Mk(n, v, a)], "ok ")
\* a constructor that cannot allocate: nothing was created; the driver recreates an empty string
MakeFail == \E k \in V, n \in Lens \ {0}, a \in As :
          Do("make! " \o T(k) \o " " \o T(n) \o " 1 " \o T(a), [s EXCEPT ![k] = Mk(0, 0, a)], "bad_alloc ")
Copy == \E k \in V : ~s[Other(k)].u /\ Do(Op("copy", k), [s EXCEPT ![k] = s[Other(k)]], "ok ")
CopyFail == \E k \in V : ~s[Other(k)].u /\ s[Other(k)].n > 0 /\ Do(Op("copy!", k), [s EXCEPT ![k] = Mk(0, 0, 1)], "bad_alloc ")

\* copy assignment
AsgA(k) == IF POCCA THEN s[Other(k)].a ELSE s[k].a
CanAsg(k) == ~s[Other(k)].u /\ (POCCA \/ s[k].a # 0)
Asg == \E k \in V : CanAsg(k) /\ Do(Op("asg", k), [s EXCEPT ![k] = [s[Other(k)] EXCEPT !.a = AsgA(k)]], "ok ")
AsgFail == \E k \in V : /\ CanAsg(k)
                        /\ s[Other(k)].n > 0
                        /\ ~s[k].u /\ s[k].n # s[Other(k)].n
                        /\ Do(Op("asg!", k), [s EXCEPT ![k] = U(IF POCCA /\ s[k].a # s[Other(k)].a THEN 0 ELSE s[k].a)], "bad_alloc ")
SelfAsg == \E k \in V : ~s[k].u /\ Do("asg " \o T(k) \o " " \o T(k), s, "ok ")

Note(k, t) == IF s[Other(k)].n = 0 THEN "ok " ELSE IF t THEN "taken " ELSE "copied "
\* move construction: the buffer is taken over, together with a copy of the allocator
MoveC == \E k \in V : ~s[Other(k)].u /\ Do(Op("move", k), [s EXCEPT ![k] = s[Other(k)], ![Other(k)] = U(s[Other(k)].a)], Note(k, TRUE))

\* move assignment: takes over the buffer if the allocator propagates or is equal, copies otherwise
Known(x) == ~x.u
Take(k) == POCMA \/ Eq(s[k].a, s[Other(k)].a)
MoveA == \E k \in V :
          /\ Known(s[Other(k)])
          /\ POCMA \/ AE \/ s[k].a # 0
          /\ LET nk == [s[Other(k)] EXCEPT !.a = IF POCMA THEN @ ELSE s[k].a]
                 no == U(IF POCMA /\ s[k].a # s[Other(k)].a THEN 0 ELSE s[Other(k)].a) IN
             Do(Op("masg", k), [s EXCEPT ![k] = nk, ![Other(k)] = no], Note(k, Take(k)))
MoveAFail == \E k \in V :
          /\ Known(s[k]) /\ Known(s[Other(k)])
          /\ ~Take(k) /\ s[Other(k)].n > 0 /\ s[k].n # s[Other(k)].n
          /\ Do(Op("masg!", k), [s EXCEPT ![k] = U(s[k].a), ![Other(k)] = U(s[Other(k)].a)], "bad_alloc ")

Swap == /\ Known(s[1]) /\ Known(s[2])
        /\ POCS \/ Eq(s[1].a, s[2].a)
        /\ Do("swap", <<[s[2] EXCEPT !.a = IF POCS THEN @ ELSE s[1].a], [s[1] EXCEPT !.a = IF POCS THEN @ ELSE s[2].a]>>, "taken ")
Destroy == \E k \in V, a \in As : Do("renew " \o T(k) \o " " \o T(a), [s EXCEPT ![k] = Mk(0, 0, a)], "ok ")

Next == Make \/ MakeFail \/ Copy \/ CopyFail \/ Asg \/ AsgFail \/ SelfAsg \/ MoveC \/ MoveA \/ MoveAFail \/ Swap \/ Destroy
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))

TypeOK == \A k \in V : s[k].n \in Lens /\ s[k].v \in 0..2 /\ (s[k].a \in As \/ (s[k].u /\ s[k].a = 0))
KnownHasAllocator == \A k \in V : Known(s[k]) => s[k].a \in As \/ AE
=============================================================================
