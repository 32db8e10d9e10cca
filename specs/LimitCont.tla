----------------------------- MODULE LimitCont -----------------------------
(* limit_allocator as the allocator of containers: two allocators, each with a budget (shared or    *)
(* not) and an upstream (identity), and what containers that use them do on copy, assignment, move  *)
(* and swap, as the upstream's propagation traits say. The upstream has no default constructor.     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kind
VARIABLES s, lab
Attr ==
  CASE Kind = "P" -> [ca |-> TRUE,  ma |-> TRUE,  sw |-> TRUE,  so |-> 0]
    [] Kind = "Q" -> [ca |-> FALSE, ma |-> FALSE, sw |-> TRUE,  so |-> 2]
    [] Kind = "R" -> [ca |-> FALSE, ma |-> TRUE,  sw |-> FALSE, so |-> 1]
    [] Kind = "S" -> [ca |-> TRUE,  ma |-> FALSE, sw |-> FALSE, so |-> 0]
H == {1, 2}
Ids == {1, 2}
T(x) == ToString(x)
Bo(x) == IF x THEN "T" ELSE "F"
Other(h) == 3 - h
Al(g, id) == [g |-> g, id |-> id]
Share(t) == t[1].g = t[2].g
\* budgets are only distinguished by whether they are the same
Norm(t) == [x \in H |-> Al(IF Share(t) THEN 1 ELSE x, t[x].id)]
Do(op, t) == s' = Norm(t) /\ lab' = <<op, T(t[1].id) \o T(t[2].id) \o (IF Share(t) THEN " one budget" ELSE " two budgets")>>
Init == s = [x \in H |-> Al(1, 1)] /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Eq == s[1] = s[2]
On(f, h) == f \o " " \o T(h) \o " " \o T(Other(h))
Make == \E h \in H, i \in Ids, f \in {"lval", "rval", "inplace"} : Do(f \o " " \o T(h) \o " " \o T(i), [s EXCEPT ![h] = Al(9, i)])
Copy == \E h \in H, f \in {"copy", "move", "asg", "masg", "rebind", "rebindmove"} : Do(On(f, h), [s EXCEPT ![h] = s[Other(h)]])
Selected(a) == IF Attr.so = 0 THEN a ELSE Al(a.g, Attr.so)
Select == \E h \in H, f \in {"soccc", "vcopy", "scopy"} : Do(On(f, h), [s EXCEPT ![h] = Selected(s[Other(h)])])
Swap == Do("swap", [x \in H |-> s[Other(x)]])
\* f: a vector or a map
VMake == \E h \in H, f \in {"vmove", "smove"} : Do(On(f, h), [s EXCEPT ![h] = s[Other(h)]])
VAsg == \E h \in H, f \in {"vasg", "sasg"} : Do(On(f, h), [s EXCEPT ![h] = IF Attr.ca THEN s[Other(h)] ELSE @])
VMasg == \E h \in H, f \in {"vmasg", "smasg"} : Do(On(f, h), [s EXCEPT ![h] = IF Attr.ma THEN s[Other(h)] ELSE @])
VSwap == \E h \in H, f \in {"vswap", "sswap"} : (Attr.sw \/ Eq) /\ Do(On(f, h), [s EXCEPT ![h] = IF Attr.sw THEN s[Other(h)] ELSE @])
Equal == s' = s /\ lab' = <<"eq", Bo(Eq)>>
Traits == s' = s /\ lab' = <<"traits", Bo(Attr.ca) \o Bo(Attr.ma) \o Bo(Attr.sw) \o "F">>
Next == Make \/ Copy \/ Select \/ Swap \/ VMake \/ VAsg \/ VMasg \/ VSwap \/ Equal \/ Traits
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
TypeOK == \A h \in H : s[h].g \in H /\ s[h].id \in Ids
=============================================================================
