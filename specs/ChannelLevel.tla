---------------------------- MODULE ChannelLevel ----------------------------
(* One channel, used by one thread, at every order of magnitude: capacities up to the largest size *)
(* there is, and up to tens of thousands of elements inside. Elements are numbered as they go in,   *)
(* and must come out in that order. Filling stops below the capacity or at it, where a try fails.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Caps,     \* capacities, as text
          Levels    \* numbers of elements inside
VARIABLES s, lab
T(x) == ToString(x)
Small == {0, 1, 2, 3, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000}
\* the number of elements that fit; capacities beyond what the model counts to are never reached
Beyond == 1000000
Fits(c) == IF \E n \in Small : T(n) = c THEN CHOOSE n \in Small : T(n) = c ELSE Beyond
\* s: cap the capacity, n elements inside, closed
New(c) == [cap |-> c, n |-> 0, closed |-> FALSE]
Do(op, t, r) == s' = t /\ lab' = <<op, r>>
Init == s = New("1") /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Full == s.n >= Fits(s.cap)
Reach == {l \in Levels \cup {Fits(s.cap)} : l <= Fits(s.cap) /\ l < Beyond}
Make == \E c \in Caps : Do("new " \o c, New(c), "ok")
Fill == ~s.closed /\ \E l \in Reach, w \in {"push", "try", "emplace", "try_emplace"} :
          l > s.n /\ Do("fill " \o w \o " " \o T(l - s.n), [s EXCEPT !.n = l], "all in")
Over == Full /\ \E w \in {"try", "try_emplace"} : Do("over " \o w, s, "F")
Late == s.closed /\ \E w \in {"push", "try", "emplace", "try_emplace"} : Do("over " \o w, s, "F")
Drain == \E l \in Reach, w \in {"pop", "try_pop", "iterator"} :
           l < s.n /\ Do("drain " \o w \o " " \o T(s.n - l), [s EXCEPT !.n = l], "in order")
\* as many elements go through as the queue has seen before, one at a time
Cycle == ~s.closed /\ ~Full /\ \E k \in {300, 70000} : Do("cycle " \o T(k), s, "in order")
Empty == s.n = 0 /\ \/ Do("empty try_pop", s, "nothing")
                    \/ s.closed /\ \E w \in {"pop", "iterator"} : Do("empty " \o w, s, "nothing")
Close == ~s.closed /\ Do("close", [s EXCEPT !.closed = TRUE], "ok")
Next == Make \/ Fill \/ Over \/ Late \/ Drain \/ Cycle \/ Empty \/ Close
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
Bounded == s.n <= Fits(s.cap)
=============================================================================
