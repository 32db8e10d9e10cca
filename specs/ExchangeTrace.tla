------------------------------ MODULE ExchangeTrace ------------------------------
(* Validates recorded concurrent histories of the real code against Exchange.tla.                   *)
(* A history is a sequence of events <<kind, thread, a, b, res, val>>:                         *)
(*   "i": thread invokes operation a with argument b, which will return res, val ("?": never)  *)
(*   "r": thread's operation returned     "q": nothing can move any more                       *)
(*   "x": something forbidden was observed                                                     *)
(* Operations take effect (are linearized) as late as possible: only when some return requires *)
(* it. A history is accepted iff some run of this specification consumes all of its events.    *)
EXTENDS Exchange, TLC, Json, IOUtils

VARIABLES h, l, st, pend

H == ndJsonDeserialize(IOEnv.HISTORIES)
N == Len(H)
Threads == 0..7
Idle == <<"idle">>
Ev == H[h].h[l]
Cap == H[h].cap

Init == /\ h \in 1..N
        /\ l = 1 /\ st = Empty /\ pend = [t \in Threads |-> Idle]

Invoke == /\ Ev[1] = "i" /\ pend[Ev[2]] = Idle
          /\ pend' = [pend EXCEPT ![Ev[2]] = <<"pend", Ev[3], Ev[4], Ev[5], Ev[6]>>]
          /\ l' = l + 1 /\ UNCHANGED <<h, st>>

TakeEffect == /\ Ev[1] = "r" /\ pend[Ev[2]][1] = "pend"
              /\ \E t \in Threads : /\ pend[t][1] = "pend" /\ pend[t][4] # "?"
                   /\ \E o \in Outcomes(st, Cap, pend[t][2], pend[t][3], t = 7) :
                        /\ Explains(o, pend[t][4], pend[t][5])
                        /\ st' = o[3]
                        /\ pend' = [pend EXCEPT ![t] = <<"done", pend[t][2]>>]
              /\ UNCHANGED <<h, l>>

Return == /\ Ev[1] = "r" /\ pend[Ev[2]][1] = "done"
          /\ pend' = [pend EXCEPT ![Ev[2]] = Idle]
          /\ l' = l + 1 /\ UNCHANGED <<h, st>>

Quiescent == /\ Ev[1] = "q"
             /\ \A t \in Threads : 
                  /\ pend[t][1] = "pend" => MayWait(st, Cap, pend[t][2])
                  /\ pend[t][1] = "done" => MayHang(st, pend[t][2])
             /\ l' = l + 1 /\ UNCHANGED <<h, st, pend>>

Observed == /\ Ev[1] = "x" /\ ~Forbidden(Ev[3])
            /\ l' = l + 1 /\ UNCHANGED <<h, st, pend>>

Next == l <= Len(H[h].h) /\ (Invoke \/ TakeEffect \/ Return \/ Quiescent \/ Observed)

\* reports acceptance (evaluated in every state)
Report == IF l > Len(H[h].h) THEN PrintT("@A" \o ToString(h)) ELSE TRUE
\* used on a rejected history only: how far it got
Progress == PrintT("@P" \o ToString(l))
=============================================================================
