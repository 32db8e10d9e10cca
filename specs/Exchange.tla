------------------------------ MODULE Exchange ------------------------------
(* Abstract exchange channel: q is <<>> or <<the most recent value not handed out yet>>.       *)
(*   deliver (C05)  most recent value, handed out once, producers never wait                   *)
(*   close   (C06)  close semantics, no stranded consumer                                      *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Aspects
A(x) == x \in Aspects

Empty == [q |-> <<>>, closed |-> FALSE]

PopSome(st) ==
  IF st.q # <<>> THEN {<<"some", Head(st.q), [st EXCEPT !.q = <<>>]>>} ELSE {}

\* cap is not used: an exchange channel always has room. A throwing emplace may have destroyed the
\* value that was pending (std::optional::emplace), which the documentation leaves open.
Outcomes(st, cap, op, v, final) ==
  CASE op = "push" ->
         (IF A("deliver") \/ A("close") => ~st.closed THEN {<<"T", 0, [st EXCEPT !.q = <<v>>]>>} ELSE {})
         \cup (IF A("deliver") \/ A("close") => st.closed THEN {<<"F", 0, st>>} ELSE {})
         \cup {<<"thr", 0, st>>} \cup (IF st.closed THEN {} ELSE {<<"thr", 0, [st EXCEPT !.q = <<>>]>>})
    [] op = "pop" -> PopSome(st)
         \cup (IF /\ A("close") => st.closed /\ st.q = <<>>
                  /\ A("deliver") => st.q = <<>>
               THEN {<<"none", 0, st>>} ELSE {})
         \cup {<<"thr", 0, st>>}
    [] op = "try_pop" -> PopSome(st)
         \cup (IF st.q = <<>> THEN {<<"none", 0, st>>} ELSE {})
         \cup {<<"thr", 0, st>>}
    [] op = "close" -> {<<"ok", 0, [st EXCEPT !.closed = TRUE]>>}
    [] op = "closed" -> {<<IF st.closed THEN "T" ELSE "F", 0, st>>}
         \cup (IF A("close") THEN {} ELSE {<<"T", 0, st>>, <<"F", 0, st>>})
    [] OTHER -> {}

Explains(o, res, val) == o[1] = res /\ (A("deliver") /\ res = "some" => o[2] = val)

MayWait(st, cap, op) ==
  /\ A("close") => op = "pop" /\ ~st.closed /\ st.q = <<>>
  /\ A("deliver") => op = "pop"

\* an operation that took effect may fail to return
MayHang(st, op) == ~A("close") /\ (A("deliver") => op = "pop")

Forbidden(what) ==
  CASE what \in {"livelock", "deadlock"} -> A("close")
    [] what \in {"bad-unlock", "wait-without-lock"} -> TRUE
    [] OTHER -> A("deliver")
=============================================================================
