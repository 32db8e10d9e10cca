------------------------------ MODULE TagAccept ------------------------------
(* Which pointers and which tags a pointer_tag_pair<T, Tag, Bits> accepts, and that what it accepts *)
(* comes back. The free bits of a pointer come from the type of the *given* pointer (a derived class *)
(* may be aligned more strictly than its base), or from the alignment that the caller promises.      *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES s, lab

\* pointees: <<name, const, log2 of the alignment>>; void has no known alignment
Cls(x) == IF x \in {"V", "cV"} THEN "V" ELSE IF x \in {"B", "cB"} THEN "B" ELSE IF x \in {"D", "cD"} THEN "D" ELSE IF x \in {"S", "cS"} THEN "S" ELSE x
Const(x) == x \in {"cV", "cB", "cD", "cS"}
Log(x) == CASE Cls(x) = "D" -> 4 [] Cls(x) = "S" -> 3 [] Cls(x) = "M" -> 3 [] Cls(x) = "X" -> 12 [] OTHER -> 0
Bases(c) == CASE c = "D" -> {"B"} [] c = "M" -> {"S"} [] c = "X" -> {"S"} [] OTHER -> {}
Conv(p, t) == p # "fn" /\ (Const(p) => Const(t)) /\ (Cls(p) = Cls(t) \/ Cls(t) = "V" \/ Cls(t) \in Bases(Cls(p)))
Ts == {"V", "cV", "c", "B", "cB", "D", "S", "cS", "X"}
Ps == {"V", "cV", "c", "B", "cB", "D", "cD", "S", "cS", "X", "M", "fn"}
Bits == {0, 1, 3, 4, 5, 12, 13}
Aligns == {0, 3, 4, 13}   \* log2 of the promised alignment
Answer(ok) == IF ok THEN "ok" ELSE "no"
Do(op, r) == s' = s /\ lab' = <<op, r>>
N(x) == ToString(x)
Ctor == \E t \in Ts, p \in Ps, b \in Bits : Do("ctor " \o t \o " " \o p \o " " \o N(b), Answer(Conv(p, t) /\ b <= Log(p)))
Over == \E t \in Ts, p \in Ps, b \in Bits, a \in Aligns : Do("over " \o t \o " " \o p \o " " \o N(b) \o " " \o N(a), Answer(Conv(p, t) /\ b <= a))
Default == \E t \in Ts : Do("bits " \o t, N(Log(t)))
\* unsigned integers and enumerations over them
Tags == [u8 |-> TRUE, u16 |-> TRUE, u32 |-> TRUE, u64 |-> TRUE, bool |-> TRUE, char8 |-> TRUE, char16 |-> TRUE, i8 |-> FALSE, i32 |-> FALSE, i64 |-> FALSE,
         float |-> FALSE, struct |-> FALSE, ptr |-> FALSE, eu8 |-> TRUE, ecu64 |-> TRUE, ebool |-> TRUE, ei |-> FALSE, eci |-> FALSE, cu8 |-> TRUE]
Tag == \E x \in DOMAIN Tags : Do("tag " \o x, Answer(Tags[x]))
\* only functions cannot be pointed to
Pointees == [void |-> TRUE, int |-> TRUE, incomplete |-> TRUE, array |-> TRUE, pointer |-> TRUE, fn |-> FALSE, fnnoex |-> FALSE]
Pointee == \E x \in DOMAIN Pointees : Do("pointee " \o x, Answer(Pointees[x]))
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Next == Ctor \/ Over \/ Default \/ Tag \/ Pointee
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
