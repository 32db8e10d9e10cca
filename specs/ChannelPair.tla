---------------------------- MODULE ChannelPair ----------------------------
(* Two channels, used by one thread, and iterators that are copied, moved, assigned and swapped     *)
(* between them: an iterator goes on with the channel that its value came from.                      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Exchange, MoveOnly, MaxQ
VARIABLES s, lab
Chans == 1..2
Its == 1..2
None == <<0, 0>>
End == 9
T(x) == ToString(x)
\* s: q[c] elements inside (their numbers), n[c] number of the next one, closed[c], it[i] = <<channel, element or End>>
Empty == [q |-> <<<<>>, <<>>>>, n |-> <<0, 0>>, closed |-> <<FALSE, FALSE>>, it |-> <<None, None>>]
Show(e) == IF e = None THEN "-" ELSE IF e[2] = End THEN "end" ELSE T(e[1]) \o "." \o T(e[2])
Do(op, t) == s' = t /\ lab' = <<op, Show(t.it[1]) \o " " \o Show(t.it[2])>>
Init == s = Empty /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Push == \E c \in Chans : /\ ~s.closed[c] /\ (Exchange \/ Len(s.q[c]) < MaxQ)
                         /\ Do("push " \o T(c), [s EXCEPT !.q[c] = IF Exchange THEN <<s.n[c]>> ELSE Append(@, s.n[c]), !.n[c] = 1 - @])
Close == \E c \in Chans : ~s.closed[c] /\ Do("close " \o T(c), [s EXCEPT !.closed[c] = TRUE])
CanPop(c) == s.q[c] # <<>> \/ s.closed[c]
Take(i, c) == [s EXCEPT !.it[i] = <<c, IF s.q[c] = <<>> THEN End ELSE Head(s.q[c])>>, !.q[c] = IF @ = <<>> THEN <<>> ELSE Tail(@)]
Begin == \E i \in Its, c \in Chans : CanPop(c) /\ s.it[i] = None /\ Do("begin " \o T(i) \o " " \o T(c), Take(i, c))
Inc == \E i \in Its : s.it[i] # None /\ CanPop(s.it[i][1]) /\ Do("inc " \o T(i), Take(i, s.it[i][1]))
Drop == \E i \in Its : s.it[i] # None /\ Do("drop " \o T(i), [s EXCEPT !.it[i] = None])
Two == \E i, j \in Its : i # j /\ s.it[j] # None /\
         \/ ~MoveOnly /\ s.it[i] = None /\ Do("copy " \o T(i), [s EXCEPT !.it[i] = s.it[j]])
         \/ ~MoveOnly /\ s.it[i] # None /\ Do("assign " \o T(i), [s EXCEPT !.it[i] = s.it[j]])
         \/ s.it[i] = None /\ Do("move " \o T(i), [s EXCEPT !.it[i] = s.it[j], !.it[j] = None])
         \/ s.it[i] # None /\ Do("massign " \o T(i), [s EXCEPT !.it[i] = s.it[j], !.it[j] = None])
         \/ s.it[i] # None /\ i < j /\ Do("swap " \o T(i), [s EXCEPT !.it[i] = s.it[j], !.it[j] = s.it[i]])
Next == Push \/ Close \/ Begin \/ Inc \/ Drop \/ Two
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
Bounded == \A c \in Chans : Len(s.q[c]) <= (IF Exchange THEN 1 ELSE MaxQ)
=============================================================================
