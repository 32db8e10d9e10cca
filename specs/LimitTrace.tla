----------------------------- MODULE LimitTrace -----------------------------
(* Concurrent limit_allocator: a shared budget of bytes. An allocation takes its bytes at one   *)
(* instant, a deallocation returns them at one instant; an allocation whose upstream fails      *)
(* takes its bytes and returns them at a later instant before it returns (so another thread may  *)
(* find the budget exhausted in between). See ChannelTrace.tla for the format of histories.      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLES h, l, left, pend

H == ndJsonDeserialize(IOEnv.HISTORIES)
N == Len(H)
Threads == 0..7
Idle == <<"idle">>
Ev == H[h].h[l]

Init == h \in 1..N /\ l = 1 /\ left = H[h].cap /\ pend = [t \in Threads |-> Idle]

Invoke == /\ Ev[1] = "i" /\ pend[Ev[2]] = Idle
          /\ pend' = [pend EXCEPT ![Ev[2]] = <<"pend", Ev[3], Ev[4], Ev[5]>>]
          /\ l' = l + 1 /\ UNCHANGED <<h, left>>

\* one step of the operation of thread t
Step(t) ==
  LET op == pend[t][2]  n == pend[t][3]  res == pend[t][4] IN
  \/ /\ pend[t][1] = "pend" /\ res = "ok" /\ op = "alloc" /\ n <= left
     /\ left' = left - n /\ pend' = [pend EXCEPT ![t] = <<"done">>]
  \/ /\ pend[t][1] = "pend" /\ res = "limit" /\ op \in {"alloc", "allocf"} /\ n > left
     /\ left' = left /\ pend' = [pend EXCEPT ![t] = <<"done">>]
  \/ /\ pend[t][1] = "pend" /\ res = "upstream" /\ op = "allocf" /\ n <= left
     /\ left' = left - n /\ pend' = [pend EXCEPT ![t] = <<"charged", op, n, res>>]
  \/ /\ pend[t][1] = "charged"
     /\ left' = left + n /\ pend' = [pend EXCEPT ![t] = <<"done">>]
  \/ /\ pend[t][1] = "pend" /\ op = "dealloc" /\ res = "ok"
     /\ left' = left + n /\ pend' = [pend EXCEPT ![t] = <<"done">>]

TakeEffect == /\ Ev[1] = "r" /\ pend[Ev[2]][1] \in {"pend", "charged"}
              /\ \E t \in Threads : pend[t][1] \in {"pend", "charged"} /\ Step(t)
              /\ UNCHANGED <<h, l>>

Return == /\ Ev[1] = "r" /\ pend[Ev[2]][1] = "done"
          /\ pend' = [pend EXCEPT ![Ev[2]] = Idle]
          /\ l' = l + 1 /\ UNCHANGED <<h, left>>

Quiescent == /\ Ev[1] = "q" /\ \A t \in Threads : pend[t] = Idle
             /\ l' = l + 1 /\ UNCHANGED <<h, left, pend>>

Next == l <= Len(H[h].h) /\ (Invoke \/ TakeEffect \/ Return \/ Quiescent)

WithinLimit == left >= 0 /\ left <= H[h].cap
Report == IF l > Len(H[h].h) THEN PrintT("@A" \o ToString(h)) ELSE TRUE
Progress == PrintT("@P" \o ToString(l))
=============================================================================
