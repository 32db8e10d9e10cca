------------------------------- MODULE Locks -------------------------------
(* Abstract mutex<T> / shared_mutex<T> with guards. slot[t][g] is what guard variable g of     *)
(* thread t is: "none" (no guard), "shell" (a moved-from guard) or <<m, mode>>, a guard that    *)
(* holds mutex m exclusively ("X") or shared ("S"). val[m] is the protected value.              *)
(* A mutex is locked exactly by the guards that hold it - there is no other lock state.         *)
EXTENDS Naturals, Sequences, FiniteSets

Threads == 0..7
Slots == 0..5
None == <<0, "none">>
Shell == <<0, "shell">>
Mode(g) == IF g < 3 THEN "X" ELSE "S"

Initial(how) == [slot |-> [t \in Threads |-> [g \in Slots |-> None]],
                 val |-> [m \in 1..2 |-> IF how = 0 THEN 0 ELSE 39 + m]]

Held(st, m, mode) == \E t \in Threads, g \in Slots : st.slot[t][g] = <<m, mode>>
FreeX(st, m) == ~Held(st, m, "X") /\ ~Held(st, m, "S")
FreeS(st, m) == ~Held(st, m, "X")
Free(st, m, g) == IF Mode(g) = "X" THEN FreeX(st, m) ELSE FreeS(st, m)

\* arguments are packed into one number: slot + 10 * mutex + 100 * second slot + 1000 * value
G(a) == a % 10
Mx(a) == ((a \div 10) % 10) + 1
G2(a) == (a \div 100) % 10
X(a) == a \div 1000

Set(st, t, g, x) == [st EXCEPT !.slot[t][g] = x]

Outcomes(st, t, op, a) ==
  LET g == G(a)  m == Mx(a)  h == G2(a) IN
  CASE op \in {"lock", "lock_shared"} ->
         IF Free(st, m, g) THEN {<<"ok", 0, Set(st, t, g, <<m, Mode(g)>>)>>} ELSE {}
    [] op \in {"try_lock", "try_lock_shared"} ->
         IF Free(st, m, g) THEN {<<"T", 0, Set(st, t, g, <<m, Mode(g)>>)>>} ELSE {<<"F", 0, st>>}
    [] op = "destroy" -> {<<"ok", 0, Set(st, t, g, None)>>}
    [] op = "move" -> {<<"ok", 0, Set(Set(st, t, h, st.slot[t][g]), t, g, Shell)>>}
    [] op = "assign" -> {<<"ok", 0, Set(Set(st, t, h, st.slot[t][g]), t, g, Shell)>>}
    [] op = "swap" -> {<<"ok", 0, Set(Set(st, t, h, st.slot[t][g]), t, g, st.slot[t][h])>>}
    [] op = "write" -> {<<"ok", 0, [st EXCEPT !.val[st.slot[t][g][1]] = X(a)]>>}
    [] op = "read" -> {<<"val", st.val[st.slot[t][g][1]] * 10 + st.slot[t][g][1], st>>}
    [] OTHER -> {}

MayWait(st, t, op, a) == op \in {"lock", "lock_shared"} /\ ~Free(st, Mx(a), G(a))

\* one writer or many readers
Exclusive(st) == \A m \in 1..2 :
  /\ Cardinality({<<t, g>> \in Threads \X Slots : st.slot[t][g] = <<m, "X">>}) <= 1
  /\ Held(st, m, "X") => ~Held(st, m, "S")
=============================================================================
