------------------------------ MODULE Literals ------------------------------
(* Integer literals of fixed width: the value modulo 2^bits, in two's complement for signed types. *)
(* Numbers are written as 16 hexadecimal digits, most significant first.                           *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES s, lab
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE Hex[q[1] + 1] \o Show(Tail(q))
\* a digit d at place k (0: least significant) over a background digit below it and another one above it
Number(k, d, below, above) == [i \in 1..16 |-> IF 16 - i = k THEN d ELSE IF 16 - i < k THEN below ELSE above]
Numbers == {Number(k, d, b, a) : k \in {1, 3, 7, 15}, d \in {0, 7, 8, 15}, b \in {0, 15}, a \in {0, 15}} \cup {Number(0, d, 0, 0) : d \in {1, 5}}
Types == {<<"u8", 2, FALSE>>, <<"i8", 2, TRUE>>, <<"u16", 4, FALSE>>, <<"i16", 4, TRUE>>, <<"u32", 8, FALSE>>, <<"i32", 8, TRUE>>, <<"u64", 16, FALSE>>, <<"i64", 16, TRUE>>,
          <<"usize", 16, FALSE>>, <<"isize", 16, TRUE>>, <<"uptr", 16, FALSE>>, <<"iptr", 16, TRUE>>}
\* the low digits, sign extended
Value(q, n, signed) == [i \in 1..16 |-> IF i > 16 - n THEN q[i] ELSE IF signed /\ q[17 - n] >= 8 THEN 15 ELSE 0]
Next == \E q \in Numbers, t \in Types : s' = s /\ lab' = <<"literal " \o t[1] \o " " \o Show(q), t[1] \o " " \o Show(Value(q, t[2], t[3]))>>
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
