----------------------------- MODULE ChannelSeq -----------------------------
(* channel and exchange_channel used by one thread: every way to hand an element in and to take    *)
(* it out, iterators that are copied, assigned, moved and compared while elements come and go, and   *)
(* channels destroyed with elements inside. What an element is passed as decides how often it is     *)
(* copied: an lvalue once, anything else never. Operations that would wait are not taken.            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Exchange,   \* only the newest element is kept
          MoveOnly,   \* elements cannot be copied
          MaxQ, NI    \* elements inside at most; iterators
VARIABLES s, lab
Vals == 1..2
Its == 1..NI
None == 99      \* no iterator in the slot
End == 0        \* an iterator at the end
T(x) == ToString(x)
\* s: q elements inside, closed, it iterators (what they refer to)
Show(i) == IF i = None THEN "-" ELSE IF i = End THEN "end" ELSE T(i)
RECURSIVE ShowIts(_, _)
ShowIts(st, i) == IF i > NI THEN "" ELSE " " \o Show(st.it[i]) \o ShowIts(st, i + 1)
Do(op, t, o) == s' = t /\ lab' = <<op, o \o ShowIts(t, 1)>>
Empty == [q |-> <<>>, closed |-> FALSE, it |-> [i \in Its |-> None]]
Init == s = Empty /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

Accept(v) == [s EXCEPT !.q = IF Exchange THEN <<v>> ELSE Append(@, v)]
Room == Exchange \/ Len(s.q) < MaxQ
Ways == {"rvalue", "emplace"} \cup (IF MoveOnly THEN {} ELSE {"lvalue", "const"}) \cup (IF Exchange THEN {} ELSE {"tryrvalue", "tryemplace"} \cup (IF MoveOnly THEN {} ELSE {"trylvalue", "tryconst"}))
Copies(w) == IF w \in {"lvalue", "const", "trylvalue", "tryconst"} THEN "1" ELSE "0"
Push == Room /\ \E v \in Vals, w \in Ways :
          IF s.closed THEN Do("push " \o w \o " " \o T(v), s, "F copies=0")
          ELSE Do("push " \o w \o " " \o T(v), Accept(v), "T copies=" \o Copies(w))
\* taking out: the oldest element, or nothing
CanPop == s.q # <<>> \/ s.closed
Got == IF s.q = <<>> THEN End ELSE Head(s.q)
Rest == IF s.q = <<>> THEN <<>> ELSE Tail(s.q)
Pop == \/ CanPop /\ Do("pop", [s EXCEPT !.q = Rest], Show(Got))
       \/ Do("try_pop", [s EXCEPT !.q = Rest], Show(Got))
Close == Do("close", [s EXCEPT !.closed = TRUE], "ok")
Closed == Do("closed", s, IF s.closed THEN "T" ELSE "F")
\* iterators: begin and increment take an element out
Begin == CanPop /\ \E i \in Its : Do("begin " \o T(i), [s EXCEPT !.it[i] = Got, !.q = Rest], "ok")
Inc == CanPop /\ \E i \in Its, w \in {"pre", "post"} : s.it[i] # None /\ (w = "post" => i = 1) /\
         Do("inc " \o T(i) \o " " \o w, [s EXCEPT !.it[i] = Got, !.q = Rest], "ok")
\* copies refer to a copy of the element; nothing is taken out of the channel
Copy == ~MoveOnly /\ \E i, j \in Its : s.it[j] # None /\
          \/ i # j /\ Do("copy " \o T(i) \o " " \o T(j), [s EXCEPT !.it[i] = s.it[j]], "ok")
          \/ s.it[i] # None /\ Do("assign " \o T(i) \o " " \o T(j), [s EXCEPT !.it[i] = s.it[j]], "ok")
Move == \E i, j \in Its : i # j /\ s.it[j] # None /\
          \/ Do("move " \o T(i) \o " " \o T(j), [s EXCEPT !.it[i] = s.it[j], !.it[j] = None], "ok")
          \/ s.it[i] # None /\ Do("massign " \o T(i) \o " " \o T(j), [s EXCEPT !.it[i] = s.it[j], !.it[j] = None], "ok")
          \/ s.it[i] # None /\ i < j /\ Do("swap " \o T(i) \o " " \o T(j), [s EXCEPT !.it[i] = s.it[j], !.it[j] = s.it[i]], "ok")
\* the element behind an iterator can be changed, and taken
Write == \E i \in Its, v \in Vals : s.it[i] \in Vals /\ s.it[i] # v /\ Do("write " \o T(i) \o " " \o T(v), [s EXCEPT !.it[i] = v], "ok")
Take == \E i \in Its : s.it[i] \in Vals /\ Do("take " \o T(i), [s EXCEPT !.it[i] = None], Show(s.it[i]))
RECURSIVE All(_)
All(q) == IF q = <<>> THEN "" ELSE T(Head(q)) \o "," \o All(Tail(q))
Loop == s.closed /\ \E w \in {"for", "copy", "transform"} : (w = "copy" => ~MoveOnly) /\ Do("loop " \o w, [s EXCEPT !.q = <<>>], All(s.q))
New == Do("new", Empty, "ok")
Next == Push \/ Pop \/ Close \/ Closed \/ Begin \/ Inc \/ Copy \/ Move \/ Write \/ Take \/ Loop \/ New
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
TypeOK == Len(s.q) <= (IF Exchange THEN 1 ELSE MaxQ) /\ \A i \in Its : s.it[i] \in Vals \cup {None, End}
=============================================================================
