------------------------------- MODULE FmtJoin -------------------------------
(* The text of a joined range: the elements in order, each in the text that its type and format  *)
(* specification give it, with the separator exactly between consecutive elements.               *)
(* (The "?" specification of C++23 is absent from this standard library.) In texts, <0> stands for a null character and <n> for a line feed.                            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Type,    \* element type
          L,       \* longest range
          Wide     \* wchar_t
VARIABLES s, lab

\* element values are 1..3; their text under each format specification
Specs == CASE Type = "int"    -> {"", "03", "#x", ">+5", "*<4"}
           [] Type = "double" -> {"", ".2f", "e", "8.1f"}
           [] Type = "string" -> {"", ">4", ".2"}
           [] Type = "char"   -> {"", "^3", "d"}
           [] Type = "bool"   -> {"", "d", "<6"}
           [] Type = "inner"  -> {"", "02"}
           [] Type = "custom" -> {"", "xx", "{"}
T(a, x, y) == <<a, x, y>>
Texts(f) == CASE Type = "int" -> (CASE f = "" -> T("0", "-7", "42") [] f = "03" -> T("000", "-07", "042") [] f = "#x" -> T("0x0", "-0x7", "0x2a")
                                      [] f = ">+5" -> T("   +0", "   -7", "  +42") [] f = "*<4" -> T("0***", "-7**", "42**"))
              [] Type = "double" -> (CASE f = "" -> T("0.5", "-2", "1e+100") [] f = ".2f" -> T("0.50", "-2.00", "10000000000000000159028911097599180468360808563945281389781327557747838772170381060813469985856815104.00")
                                      [] f = "e" -> T("5.000000e-01", "-2.000000e+00", "1.000000e+100") [] f = "8.1f" -> T("     0.5", "    -2.0", "10000000000000000159028911097599180468360808563945281389781327557747838772170381060813469985856815104.0"))
              [] Type = "string" -> (CASE f = "" -> T("", "a, b", "{}") [] f = ">4" -> T("    ", "a, b", "  {}") [] f = ".2" -> T("", "a,", "{}"))
              [] Type = "char" -> (CASE f = "" -> T("a", ",", "<0>") [] f = "^3" -> T(" a ", " , ", " <0> ") [] f = "d" -> T("97", "44", "0"))
              [] Type = "bool" -> (CASE f = "" -> T("true", "false", "true") [] f = "d" -> T("1", "0", "1") [] f = "<6" -> T("true  ", "false ", "true  "))
              \* elements that are joined ranges themselves: <<>>, <<4>>, <<5, 60, 7>> with separator "+"
              [] Type = "inner" -> (CASE f = "" -> T("", "4", "5+60+7") [] f = "02" -> T("", "04", "05+60+07"))
              \* a type with a formatter that writes its format specification and its value
              [] Type = "custom" -> (CASE f = "" -> T("[1]", "[2]", "[3]") [] f = "xx" -> T("[xx1]", "[xx2]", "[xx3]") [] f = "{" -> T("[{1]", "[{2]", "[{3]"))

\* separators: names (the harness knows the kinds: literal, array, string object, view, character, list of characters) and texts
Seps == <<", ", "", "-", "<0>", "<n>", "{}", "%s\\", ", , ", "a<0>b", "x", "{", "long separator that does not fit into small buffers">>
SepKinds(k) == IF k \in {3, 4, 5, 10, 11} THEN {"char", "string", "view", "vector"} \cup (IF k # 4 THEN {"literal"} ELSE {})
               ELSE IF k = 9 THEN {"string", "view", "vector"} ELSE {"literal", "string", "view", "vector", "pointer"}

RECURSIVE Body(_, _, _)
Body(q, t, sep) == IF q = <<>> THEN "" ELSE t[q[1]] \o (IF Len(q) > 1 THEN sep \o Body(Tail(q), t, sep) ELSE "")
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN "" ELSE ToString(q[1]) \o Code(Tail(q))
CodeOf(q) == IF q = <<>> THEN "-" ELSE Code(q)
Ranges == UNION {[1..n -> 1..3] : n \in 0..L}
Short == UNION {[1..n -> 1..3] : n \in 0..2}
Few == {<<>>, <<1>>, <<3, 2>>, <<1, 1, 1>>, <<2, 3, 1, 3, 2>>}
F(f) == IF f = "" THEN "-" ELSE f
Do(op, r) == s' = s /\ lab' = <<op, "\"" \o r \o "\"">>

Joined == \E q \in Ranges, f \in Specs : Do("join vector literal 1 " \o F(f) \o " " \o CodeOf(q), Body(q, Texts(f), ", "))
AllSeps == \E q \in Short \cup Few, k \in 1..Len(Seps) : \E sk \in SepKinds(k) :
             Do("join vector " \o sk \o " " \o ToString(k) \o " - " \o CodeOf(q), Body(q, Texts(""), Seps[k]))
Containers == {"list", "const", "temporary", "forward", "span", "filter", "transform", "reverse", "sentinel", "input", "inputtmp", "initlist", "deque", "take", "constview"}
              \cup (IF Type = "bool" THEN {"vectorbool"} ELSE {}) \cup (IF Type = "int" /\ ~Wide THEN {"istream"} ELSE {}) \cup (IF Type = "char" THEN {"text"} ELSE {})
AllContainers == \E q \in Short \cup Few, c \in Containers, f \in Specs, k \in {1, 3} :
             (c = "initlist" => Len(q) <= 3 /\ Len(q) > 0) /\
             Do("join " \o c \o " " \o (IF k = 1 THEN "literal" ELSE "char") \o " " \o ToString(k) \o " " \o F(f) \o " " \o CodeOf(q), Body(q, Texts(f), Seps[k]))
\* long ranges
Many == \E n \in {40, 257}, f \in Specs, c \in {"vector", "list", "input", "deque"}, k \in {1, 3} : Type \in {"int", "string", "char", "custom"} /\
          LET q == [i \in 1..n |-> ((i * i) % 3) + 1] IN
          Do("join " \o c \o " " \o (IF k = 1 THEN "literal" ELSE "char") \o " " \o ToString(k) \o " " \o F(f) \o " " \o CodeOf(q), Body(q, Texts(f), Seps[k]))
\* inside larger format strings, with neighbours; two joined ranges; one twice; formatted_size; format_to; stored joiners
Embed == \E q \in Short \cup Few, p \in Short, k \in {1, 2, 3} : LET x == Body(q, Texts(""), Seps[k])  y == Body(p, Texts(""), ";") IN
             \/ Do("around " \o ToString(k) \o " " \o CodeOf(q), "<" \o x \o ">{" \o x \o "}7")
             \/ Do("two " \o ToString(k) \o " " \o CodeOf(q) \o " " \o CodeOf(p), "a" \o x \o y \o "b" \o x)
             \/ p = <<>> /\ \E w \in {"format_to", "vformat", "stored", "copied", "backins", "const", "twice"} :
                  Do("via " \o w \o " " \o ToString(k) \o " " \o CodeOf(q), x \o (IF w = "twice" THEN x ELSE ""))
Dynamic == Type = "int" /\ \E q \in Short \cup Few : Do("dynamic " \o CodeOf(q), Body(q, T("    0", "   -7", "   42"), ", "))

Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Next == Many \/ Joined \/ AllSeps \/ AllContainers \/ Embed \/ Dynamic
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
