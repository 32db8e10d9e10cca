----------------------------- MODULE PolyAlloc -----------------------------
(* polymorphic_allocator / offset_ptr_stl_allocator: two allocators, each holding one upstream   *)
(* allocator (kind and identity), and blocks that were obtained from an upstream.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Cfg,      \* alternatives, in order: "P", "Q", "R", "PQ", "RQ", "PQR", ...
          Sizes, NB
VARIABLES s, lab

\* kinds of upstream allocators: propagation traits, whether all are equal, what
\* select_on_container_copy_construction gives (0: a copy)
Attr(k) ==
  CASE k = "P" -> [ca |-> TRUE,  ma |-> TRUE,  sw |-> TRUE,  ae |-> FALSE, so |-> 0]
    [] k = "Q" -> [ca |-> FALSE, ma |-> FALSE, sw |-> TRUE,  ae |-> FALSE, so |-> 2]
    [] k = "R" -> [ca |-> FALSE, ma |-> TRUE,  sw |-> FALSE, ae |-> TRUE,  so |-> 1]
    [] k = "S" -> [ca |-> TRUE,  ma |-> FALSE, sw |-> TRUE,  ae |-> TRUE,  so |-> 0]
Order == CASE Cfg = "P" -> <<"P">> [] Cfg = "Q" -> <<"Q">> [] Cfg = "R" -> <<"R">> [] Cfg = "S" -> <<"S">>
           [] Cfg = "PQ" -> <<"P", "Q">> [] Cfg = "RQ" -> <<"R", "Q">> [] Cfg = "SP" -> <<"S", "P">> [] Cfg = "RS" -> <<"R", "S">>
           [] Cfg = "PQR" -> <<"P", "Q", "R">> [] Cfg = "SRQP" -> <<"S", "R", "Q", "P">>
N == Len(Order)
K == 1..N
A(i) == Attr(Order[i])
CA == \A i \in K : A(i).ca
MA == \A i \in K : A(i).ma
SW == \A i \in K : A(i).sw
AE == N = 1 /\ A(1).ae

H == {1, 2}
B == 1..NB
Ids == {1, 2}
T(x) == ToString(x)
Bo(x) == IF x THEN "T" ELSE "F"
None == [k |-> 0, id |-> 0, n |-> 0]
Al(k, id) == [k |-> k, id |-> id]
Eq(a, b) == a.k = b.k /\ (A(a.k).ae \/ a.id = b.id)
Show(a) == Order[a.k] \o T(a.id)
Obs(t) == Show(t.h[1]) \o "|" \o Show(t.h[2])
Do(op, note, t) == s' = t /\ lab' = <<op, note \o Obs(t)>>
Other(h) == 3 - h

Init == /\ s = [h |-> [x \in H |-> Al(1, 1)], b |-> [x \in B |-> None]]
        /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

Make == \E h \in H, k \in K, i \in Ids, f \in {"type", "index", "lval", "rval", "asgval"} :
          Do(f \o " " \o T(h) \o " " \o T(k) \o " " \o T(i), "", [s EXCEPT !.h[h] = Al(k, i)])
Default == \E h \in H : Do("def " \o T(h), "", [s EXCEPT !.h[h] = Al(1, 1)])
Copy == \E h \in H, f \in {"copy", "move", "asg", "masg", "rebind", "rebindmove"} :
          Do(f \o " " \o T(h) \o " " \o T(Other(h)), "", [s EXCEPT !.h[h] = s.h[Other(h)]])
SelfAsg == \E h \in H : Do("asg " \o T(h) \o " " \o T(h), "", s)
Selected(a) == IF A(a.k).so = 0 THEN a ELSE Al(a.k, A(a.k).so)
Select == \E h \in H, f \in {"soccc", "vcopy"} : Do(f \o " " \o T(h) \o " " \o T(Other(h)), "", [s EXCEPT !.h[h] = Selected(s.h[Other(h)])])
Swap == Do("swap", "", [s EXCEPT !.h = [x \in H |-> s.h[Other(x)]]])
\* containers that use allocator h, assigned from / swapped with containers using the other one
VAsg == \E h \in H : Do("vasg " \o T(h) \o " " \o T(Other(h)), "", [s EXCEPT !.h[h] = IF CA THEN s.h[Other(h)] ELSE @])
VMasg == \E h \in H : Do("vmasg " \o T(h) \o " " \o T(Other(h)), "", [s EXCEPT !.h[h] = IF MA THEN s.h[Other(h)] ELSE @])
VSwap == \E h \in H : (SW \/ Eq(s.h[1], s.h[2])) /\ Do("vswap " \o T(h) \o " " \o T(Other(h)), "", [s EXCEPT !.h[h] = IF SW THEN s.h[Other(h)] ELSE @])
Equal == s' = s /\ lab' = <<"eq", Bo(Eq(s.h[1], s.h[2]))>>
Traits == s' = s /\ lab' = <<"traits", Bo(CA) \o Bo(MA) \o Bo(SW) \o Bo(AE)>>
Alloc == \E k \in B, h \in H, n \in Sizes : s.b[k] = None /\
           Do("alloc " \o T(k) \o " " \o T(h) \o " " \o T(n), Show(s.h[h]) \o ".allocate(" \o T(n) \o ") ", [s EXCEPT !.b[k] = [k |-> s.h[h].k, id |-> s.h[h].id, n |-> n]])
AllocFail == \E h \in H, n \in Sizes : Do("alloc! 1 " \o T(h) \o " " \o T(n), "bad_alloc ", s)
Free == \E k \in B, h \in H : s.b[k] # None /\ Eq(Al(s.b[k].k, s.b[k].id), s.h[h]) /\
           Do("free " \o T(k) \o " " \o T(h), Show(s.h[h]) \o ".deallocate(same," \o T(s.b[k].n) \o ") ", [s EXCEPT !.b[k] = None])

Next == Make \/ Default \/ Copy \/ SelfAsg \/ Select \/ Swap \/ VAsg \/ VMasg \/ VSwap \/ Equal \/ Traits \/ Alloc \/ AllocFail \/ Free
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
TypeOK == /\ \A h \in H : s.h[h].k \in K /\ s.h[h].id \in Ids
          /\ \A k \in B : s.b[k] = None \/ s.b[k].n \in Sizes
EqIsEquivalence == Eq(s.h[1], s.h[1]) /\ (Eq(s.h[1], s.h[2]) <=> Eq(s.h[2], s.h[1]))
=============================================================================
