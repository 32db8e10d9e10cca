----------------------------- MODULE LocksTrace -----------------------------
(* Validates recorded concurrent histories of mutex<T> / shared_mutex<T> against Locks.tla;     *)
(* see ChannelTrace.tla for the format of histories.                                            *)
EXTENDS Locks, TLC, Json, IOUtils

VARIABLES h, l, st, pend

H == ndJsonDeserialize(IOEnv.HISTORIES)
N == Len(H)
Idle == <<"idle">>
Ev == H[h].h[l]

Init == /\ h \in 1..N
        /\ l = 1 /\ st = Initial(H[h].cap) /\ pend = [t \in Threads |-> Idle]

Invoke == /\ Ev[1] = "i" /\ pend[Ev[2]] = Idle
          /\ pend' = [pend EXCEPT ![Ev[2]] = <<"pend", Ev[3], Ev[4], Ev[5], Ev[6]>>]
          /\ l' = l + 1 /\ UNCHANGED <<h, st>>

TakeEffect == /\ Ev[1] = "r" /\ pend[Ev[2]][1] = "pend"
              /\ \E t \in Threads : /\ pend[t][1] = "pend" /\ pend[t][4] # "?"
                   /\ \E o \in Outcomes(st, t, pend[t][2], pend[t][3]) :
                        /\ o[1] = pend[t][4] /\ o[2] = pend[t][5]
                        /\ st' = o[3]
                        /\ pend' = [pend EXCEPT ![t] = <<"done">>]
              /\ UNCHANGED <<h, l>>

Return == /\ Ev[1] = "r" /\ pend[Ev[2]][1] = "done"
          /\ pend' = [pend EXCEPT ![Ev[2]] = Idle]
          /\ l' = l + 1 /\ UNCHANGED <<h, st>>

Quiescent == /\ Ev[1] = "q"
             /\ \A t \in Threads : /\ pend[t][1] = "pend" => MayWait(st, t, pend[t][2], pend[t][3])
                                   /\ pend[t][1] # "done"
             /\ l' = l + 1 /\ UNCHANGED <<h, st, pend>>

Next == l <= Len(H[h].h) /\ (Invoke \/ TakeEffect \/ Return \/ Quiescent)

Report == /\ Exclusive(st)
          /\ IF l > Len(H[h].h) THEN PrintT("@A" \o ToString(h)) ELSE TRUE
Progress == PrintT("@P" \o ToString(l))
=============================================================================
