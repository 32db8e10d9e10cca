------------------------------ MODULE Channel ------------------------------
(* Abstract bounded MPMC channel. The state is [q |-> sequence of accepted, undelivered      *)
(* elements, closed |-> BOOLEAN].  Outcomes(st, cap, op, v) is the set of <<result, value,    *)
(* next state>> an operation may have when it takes effect in st; the empty set means that    *)
(* the operation has to wait.  Aspects selects which guarantees are demanded, so that each    *)
(* property is judged on its own:                                                             *)
(*   deliver (C01)  what is handed out, and in which order                                    *)
(*   cap     (C02)  capacity, exact answers of try_ operations, no needless waiting           *)
(*   close   (C03)  closing is permanent, rejects, drains, and releases everybody             *)
(*   stuck   (C04)  nobody stays blocked who could proceed                                    *)
(* With all four, Outcomes is the complete sequential specification of channel.hpp.           *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Aspects
A(x) == x \in Aspects

Empty == [q |-> <<>>, closed |-> FALSE]
Full(st, cap) == Len(st.q) >= cap

\* final: the operation belongs to the final draining of the channel (all producers are done)
PushT(st, cap, v) ==
  IF (A("cap") => ~Full(st, cap)) /\ (A("close") => ~st.closed)
  THEN {<<"T", 0, [st EXCEPT !.q = Append(@, v)]>>} ELSE {}
PopSome(st) ==
  IF st.q # <<>> THEN {<<"some", Head(st.q), [st EXCEPT !.q = Tail(@)]>>} ELSE {}

Outcomes(st, cap, op, v, final) ==
  CASE op = "push" -> PushT(st, cap, v)
         \cup (IF A("cap") \/ A("close") => st.closed THEN {<<"F", 0, st>>} ELSE {})
         \cup {<<"thr", 0, st>>}
    [] op = "try_push" -> PushT(st, cap, v)
         \cup (IF A("cap") => st.closed \/ Full(st, cap) THEN {<<"F", 0, st>>} ELSE {})
         \cup {<<"thr", 0, st>>}
    [] op = "pop" -> PopSome(st)
         \cup (IF /\ A("cap") \/ A("close") => st.closed /\ st.q = <<>>
                  /\ A("deliver") /\ final => st.q = <<>>
               THEN {<<"none", 0, st>>} ELSE {})
         \cup {<<"thr", 0, st>>}
    [] op = "try_pop" -> PopSome(st)
         \cup (IF /\ A("cap") => st.q = <<>>
                  /\ A("close") /\ st.closed => st.q = <<>>
                  /\ A("deliver") /\ final => st.q = <<>>
               THEN {<<"none", 0, st>>} ELSE {})
         \cup {<<"thr", 0, st>>}
    [] op = "close" -> {<<"ok", 0, [st EXCEPT !.closed = TRUE]>>}
    [] op = "closed" -> {<<IF st.closed THEN "T" ELSE "F", 0, st>>}
         \cup (IF A("close") THEN {} ELSE {<<"T", 0, st>>, <<"F", 0, st>>})
    [] OTHER -> {}

\* a result that is explained by an outcome; without "deliver" the identity of elements does not matter
Explains(o, res, val) == o[1] = res /\ (A("deliver") /\ res = "some" => o[2] = val)

\* an operation may be blocked when nothing can move any more
MayWait(st, cap, op) ==
  /\ A("stuck") => \/ op = "push" /\ ~st.closed /\ Full(st, cap)
                   \/ op = "pop" /\ ~st.closed /\ st.q = <<>>
  /\ A("cap") => \/ op = "push" /\ (st.closed \/ Full(st, cap))
                 \/ op = "pop" /\ (st.closed \/ st.q = <<>>)
                 \/ op \notin {"push", "pop", "try_push", "try_pop"}
  /\ A("close") => ~st.closed

\* an operation that took effect may fail to return
MayHang(st, op) == ~A("stuck") /\ ~A("cap") /\ (A("close") => ~st.closed)

\* things no execution may exhibit, by the aspect they break
Forbidden(what) ==
  CASE what \in {"livelock", "deadlock"} -> A("stuck")
    [] what \in {"bad-unlock", "wait-without-lock"} -> TRUE
    [] OTHER -> A("deliver")
=============================================================================
