------------------------------ MODULE OStream ------------------------------
(* An output stream over a buffer of limited capacity, written to with << of types that have a    *)
(* formatter but no << of their own: the text they write, and the state of the stream.            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxCap, Deep
VARIABLES s, lab
\* text: written so far; cap: characters that the buffer still takes; bits: eof, fail, bad; exc: bits that throw;
\* tied: another stream is tied; unit: unitbuf
Init == s = [text |-> "", cap |-> MaxCap, bits |-> {}, exc |-> {}, tied |-> FALSE, unit |-> FALSE] /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Do(op, r, t) == s' = t /\ lab' = <<op, r>>
Values == {"", "x", "ab"}
Types == {"global", "namespace", "enum", "derived", "join", "lvalue", "arg", "conv", "rvalue"}
\* writing value v: nothing on a stream that is not good, otherwise as much as fits
After(st, v) == IF st.bits # {} THEN st \* (the standard allows that the fail bit is set here, the harness removes it)
                ELSE IF Len(v) <= st.cap THEN [st EXCEPT !.text = @ \o v, !.cap = @ - Len(v)]
                ELSE [st EXCEPT !.text = @ \o SubSeq(v, 1, st.cap), !.cap = 0, !.bits = {"b"}]
Show(st) == (IF "e" \in st.bits THEN "e" ELSE "") \o (IF "f" \in st.bits THEN "f" ELSE "") \o (IF "b" \in st.bits THEN "b" ELSE "")
\* bits that are set now and may throw make the operation throw
Throws(a, b) == (b.bits \cap b.exc) # {} /\ (b.bits # a.bits \/ a.bits # {})
Report(a, b) == (IF Throws(a, b) THEN "failure " ELSE "") \o "[" \o b.text \o "]" \o Show(b)
                \o (IF a.bits = {} /\ a.tied THEN " tied flushed" ELSE "") \o (IF a.unit /\ a.bits = {} /\ b.bits = {} THEN " flushed" ELSE "")
Put == \E v \in Values, t \in Types : (s.bits = {} \/ s.exc = {}) /\ (t = "global" \/ Deep \/ (s.exc = {} /\ ~s.tied)) /\ (t = "enum" => v # "") /\ (t \in {"join", "conv"} => Len(v) = 2) /\
         LET n == After(s, v) IN Do("put " \o t \o " " \o (IF v = "" THEN "-" ELSE v), Report(s, n), n)
\* two in one expression: the second one is not reached if the first one throws
Chain == s.cap <= 3 /\ (s.bits = {} \/ s.exc = {}) /\ s.exc \in {{}, {"b"}} /\ ~s.tied /\ ~s.unit /\ \E v, w \in Values \ {""} : LET m == After(s, v)  n == IF Throws(s, m) THEN m ELSE After(m, w) IN
         Do("chain " \o v \o " " \o w, (IF Throws(s, m) \/ Throws(m, n) THEN "failure " ELSE "") \o "[" \o n.text \o "]" \o Show(n), n)
\* text formats of the stream do not matter for formatters
Manip == s.bits = {} /\ s.exc = {} /\ ~s.tied /\ ~s.unit /\ \E m \in {"width", "hex", "boolalpha", "fill", "precision", "locale"} :
         LET n == After(s, "ab") IN Do("manip " \o m, Report(s, n), n)
\* types that have a << of their own keep it, although they have a formatter as well
Own == s.bits = {} /\ s.cap > 0 /\ s.exc = {} /\ ~s.tied /\ ~s.unit /\ \E t \in {"friend", "adl", "member", "both", "base", "int", "char", "literal", "pointer"} :
         LET n == After(s, "o") IN Do("own " \o t, Report(s, n), n)
Clear == s.bits # {} /\ Do("clear", "", [s EXCEPT !.bits = {}])
Set == \E b \in {"e", "f", "b"} : b \notin s.bits /\ b \notin s.exc /\ s.exc \cap s.bits = {} /\ (s.bits = {} \/ (b = "f" /\ s.bits = {"e"})) /\ Do("set " \o b, "", [s EXCEPT !.bits = @ \cup {b}])
Exc == s.bits = {} /\ \E e \in SUBSET {"f", "b"} : e # s.exc /\ Do("exceptions " \o (IF "f" \in e THEN "f" ELSE "-") \o (IF "b" \in e THEN "b" ELSE "-"), "", [s EXCEPT !.exc = e])
Tie == s.bits = {} /\ (s.tied \/ s.exc = {}) /\ Do(IF s.tied THEN "untie" ELSE "tie", "", [s EXCEPT !.tied = ~@])
Unit == s.bits = {} /\ (s.unit \/ s.exc = {}) /\ Do(IF s.unit THEN "nounitbuf" ELSE "unitbuf", "", [s EXCEPT !.unit = ~@])
Reset == Do("reset", "", [s EXCEPT !.text = "", !.cap = MaxCap])
Shrink == s.text = "" /\ s.cap > 0 /\ Do("shrink", "", [s EXCEPT !.cap = @ - 1])
\* which types can be written
Traits == s.text = "" /\ s.bits = {} /\ \E x \in {<<"global", "TF">>, <<"namespace", "TF">>, <<"enum", "TF">>, <<"join", "TF">>, <<"friend", "TT">>, <<"adl", "TT">>, <<"int", "TT">>,
            <<"plain", "FF">>, <<"othercharacter", "FF">>, <<"pointer", "TT">>, <<"both", "TT">>, <<"base", "TT">>, <<"string", "TT">>} : Do("trait " \o x[1], x[2], s)
\* long texts, texts with null characters and line ends
Long == s.bits = {} /\ s.text = "" /\ ~s.unit /\ ~s.tied /\ \E n \in {0, 1, 255, 256, 257, 4095, 5000, 100000} : Do("long " \o ToString(n), "good " \o ToString(n), s)
Next == Put \/ Chain \/ Manip \/ Own \/ Clear \/ Set \/ Exc \/ Tie \/ Unit \/ Reset \/ Shrink \/ Traits \/ Long
TypeOK == Len(s.text) + s.cap <= MaxCap
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
