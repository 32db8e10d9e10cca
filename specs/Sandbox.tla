------------------------------ MODULE Sandbox ------------------------------
(* A process that runs functions in sandboxes. Its state is what a sandbox could disturb: signal  *)
(* dispositions, the signal mask, pending signals, other children, and the output that it (c) and *)
(* the sandboxed functions (f) wrote to each stream so far, in order.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS A, B,      \* two signals for which dispositions and the mask vary
          X, Y,      \* two streams, or "-"
          MaxLog
VARIABLES s, lab

Sigs == {A, B}
Streams == {X, Y} \ {"-"}
Init == /\ s = [disp |-> [g \in Sigs |-> "d"], blk |-> {}, pend |-> {}, other |-> FALSE, log |-> [x \in Streams |-> <<>>]]
        /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Do(op, r, t) == s' = t /\ lab' = <<op, r>>
T(n) == ToString(n)

\* POSIX default actions
Stops == {19, 20, 21, 22}
Harmless == {17, 18, 23, 28}
Numbers == (1..31) \cup 34..64
Sig(n) == IF n \in Harmless THEN "ok" ELSE "signal " \o T(n)

\* every way in which a function can end
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat(Tail(q))
Returned(k) == IF k % 256 = 0 THEN "ok" ELSE "fail"
Ends == {<<"void", "ok">>}
   \cup {<<"return " \o T(k), Returned(k)>> : k \in {0, 1, 2, 3, 42, 127, 128, 129, 134, 139, 254, 255, 256, 257, 512, 65536, 2147483647}}
   \cup {<<"_exit " \o T(k), Returned(k)>> : k \in {0, 1, 11, 255}}
   \cup {<<"throw " \o x, "signal 6">> : x \in {"exception", "int", "nested"}}
   \cup {<<"raise " \o T(n), Sig(n)>> : n \in Numbers \ Stops}
   \cup {<<"stop " \o T(n), "ok">> : n \in Stops}              \* stopped, later continued by somebody else
   \cup {<<"own " \o T(n), "ok">> : n \in {A, B}}             \* the function handles the signal itself
   \cup {<<"held " \o T(n), "ok">> : n \in {A, B} \ {9}}      \* the function blocks the signal itself
   \cup {<<"fault " \o x[1], "signal " \o T(x[2])>> : x \in {<<"ud2", 4>>, <<"null", 11>>, <<"div", 8>>, <<"stack", 11>>, <<"wild", 11>>}}
   \cup {<<x, "signal 6">> : x \in {"abort", "assert", "terminate", "noexcept"}}
   \cup {<<"broken " \o x, "signal 6">> : x \in {"cout", "clog", "wcout", "wclog"}}   \* a stream that throws when it is flushed after the function
   \cup {<<"alarm", "signal 14">>, <<"exec true", "ok">>, <<"exec false", "fail">>, <<"orphan", "ok">>, <<"change", "ok">>, <<"child", "ok">>, <<"sleep", "ok">>}
   \cup {<<"inner " \o T(n), "ok inner=" \o T(n)>> : n \in {2, 6, 11, 15}} \cup {<<"inner 0", "ok inner=ok">>, <<"inner 1", "ok inner=fail">>}

Run == \E e \in Ends : Do("run " \o e[1], e[2], s)
\* the caller receives signals while it waits
Interrupt == \E g \in Sigs, n \in {1, 3} :
   /\ s.disp[g] # "d" /\ g \notin s.pend /\ (s.disp[g] = "i" => g \notin s.blk)
   /\ LET seen == s.disp[g] = "h" /\ g \notin s.blk IN
      Do("interrupt " \o T(g) \o " " \o T(n), "ok handled=" \o T(IF seen THEN n ELSE 0),
         IF g \in s.blk /\ s.disp[g] = "h" THEN [s EXCEPT !.pend = @ \cup {g}] ELSE s)
Dispose == \E g \in Sigs, d \in {"d", "i", "h"} : g \notin s.pend /\ d # s.disp[g] /\ Do("disp " \o T(g) \o " " \o d, "", [s EXCEPT !.disp[g] = d])
Block == \E g \in Sigs : g \notin s.blk /\ Do("block " \o T(g), "", [s EXCEPT !.blk = @ \cup {g}])
Unblock == \E g \in s.blk : Do("unblock " \o T(g), IF g \in s.pend THEN "handled" ELSE "", [s EXCEPT !.blk = @ \ {g}, !.pend = @ \ {g}])
Pend == \E g \in s.blk : s.disp[g] = "h" /\ Do("pend " \o T(g), "", [s EXCEPT !.pend = @ \cup {g}])
\* a child of the caller that has nothing to do with sandboxes
Spawn == ~s.other /\ \E k \in {"dead", "alive"} : Do("spawn " \o k, "", [s EXCEPT !.other = TRUE])
Reap == s.other /\ Do("reap", "7", [s EXCEPT !.other = FALSE])

Put(x, c) == [s EXCEPT !.log[x] = Append(@, c)]
Room(x) == Len(s.log[x]) < MaxLog
Text(q) == Cat(q)
Write == \E x \in Streams, z \in {"c", "C"} : Room(x) /\ Do("write " \o x \o " " \o z, "", Put(x, z))
\* a function that ends normally, or that flushes what it has written before it ends in another way
FWrite == \E x \in Streams, z \in {"f", "F"} : Room(x) /\ \E e \in {<<"void", "ok">>, <<"return 3", "fail">>, <<"flush void", "ok">>, <<"flush abort", "signal 6">>, <<"flush kill", "signal 9">>, <<"flush throw", "signal 6">>} :
             Do("output " \o x \o " " \o z \o " " \o e[1], e[2], Put(x, z))
\* a sandbox in a sandbox, both write
Both == \E x \in Streams : Len(s.log[x]) + 2 < MaxLog + 1 /\ Do("nested " \o x, "ok", [s EXCEPT !.log[x] = @ \o <<"f", "g", "f">>])
Silent == Streams # {} /\ \E e \in {<<"void", "ok">>, <<"abort", "signal 6">>, <<"throw exception", "signal 6">>, <<"_exit 1", "fail">>} : Do("run " \o e[1], e[2], s)
Check == \E x \in Streams : Do("check " \o x, "(" \o Text(s.log[x]) \o ")", [s EXCEPT !.log[x] = <<>>])

Next == IF Streams = {} THEN Run \/ Interrupt \/ Dispose \/ Block \/ Unblock \/ Pend
        ELSE Write \/ FWrite \/ Both \/ Silent \/ Check \/ Spawn \/ Reap
TypeOK == /\ s.pend \subseteq s.blk /\ \A g \in s.pend : s.disp[g] = "h"
          /\ \A x \in Streams : Len(s.log[x]) <= MaxLog + 1
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
