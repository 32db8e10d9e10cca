------------------------------ MODULE TypeList ------------------------------
(* The operations on lists of types, as functions on sequences over three distinct types 1, 2, 3. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS L,        \* all lists up to this length
          Concats   \* lists up to this length are concatenated and nested
VARIABLES s, lab
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Do(op, r) == s' = s /\ lab' = <<op, r>>
T(n) == ToString(n)
Types == 1..3
Upto(n) == UNION {[1..k -> Types] : k \in 0..n}
Longer == {<<1, 1, 1, 1>>, <<1, 2, 1, 2>>, <<2, 1, 1, 3>>, <<3, 3, 2, 1>>, <<1, 1, 2, 2, 3, 3>>, <<1, 2, 1, 2, 1, 3>>, <<3, 2, 1, 3, 2, 1, 3>>, <<1, 1, 1, 1, 1, 1, 1, 1, 2>>, <<2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 3>>}
\* long lists: 1 and 2 mixed, with the only 3 near the end; and all three mixed
Late(n) == [k \in 1..n |-> IF k = n - 1 THEN 3 ELSE ((k * k + (k \div 3)) % 2) + 1]
Mixed(n) == [k \in 1..n |-> ((k * k + (k \div 3)) % 3) + 1]
Lists == Upto(L) \cup Longer \cup {Late(33), Mixed(40)}
RECURSIVE Digits(_)
Digits(q) == IF q = <<>> THEN "" ELSE T(q[1]) \o Digits(Tail(q))
Code(q) == IF q = <<>> THEN "-" ELSE Digits(q)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE q[1] \o Join(Tail(q))
Show(q) == "[" \o Digits(q) \o "]"
Map(q, F(_)) == [k \in 1..Len(q) |-> F(q[k])]
Select(q, P) == SelectSeq(q, LAMBDA x : x \in P)
First(q) == IF q = <<>> THEN "none" ELSE T(q[1])
At(q, k) == IF k < Len(q) THEN T(q[k + 1]) ELSE "none"
Positions(q, P) == {k \in 1..Len(q) : q[k] \in P}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Index(q, P) == IF Positions(q, P) = {} THEN "none" ELSE T(Min(Positions(q, P)) - 1)
Found(q, P) == IF Positions(q, P) = {} THEN "none" ELSE T(q[Min(Positions(q, P))])
Range(q) == {q[k] : k \in 1..Len(q)}
RECURSIVE Unique(_)
Unique(q) == IF q = <<>> THEN <<>> ELSE LET r == Unique(SubSeq(q, 1, Len(q) - 1)) x == q[Len(q)] IN IF x \in Range(r) THEN r ELSE Append(r, x)
B(x) == IF x THEN "T" ELSE "F"
Mask(P) == T((IF 1 \in P THEN 1 ELSE 0) + (IF 2 \in P THEN 2 ELSE 0) + (IF 3 \in P THEN 4 ELSE 0))
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE qs[1] \o Flat(Tail(qs))
Turn(x) == IF x = 3 THEN 1 ELSE x + 1

Simple == \E q \in Lists : LET c == " " \o Code(q) IN
   \/ Do("size" \o c, T(Len(q)))
   \/ Do("first" \o c, First(q))
   \/ Do("last" \o c, IF q = <<>> THEN "none" ELSE T(q[Len(q)]))
   \/ \E k \in 0..8 \cup (Len(q) - 2)..(Len(q) + 1) : k >= 0 /\ Do("nth" \o c \o " " \o T(k), At(q, k))
   \/ \E k \in 0..Len(q) : Do("take" \o c \o " " \o T(k), Show(SubSeq(q, 1, k))) \/ Do("drop" \o c \o " " \o T(k), Show(SubSeq(q, k + 1, Len(q))))
   \/ Do("transform" \o c \o " wrap", "[" \o Join(Map(q, LAMBDA x : "W" \o T(x))) \o "]")
   \/ Do("transform" \o c \o " turn", Show(Map(q, Turn)))
   \/ Do("transform" \o c \o " one", Show(Map(q, LAMBDA x : 1)))
   \/ Do("transform" \o c \o " pair", "[" \o Join(Map(q, LAMBDA x : "[" \o T(x) \o T(x) \o "]")) \o "]")
   \/ Do("flatpair" \o c, Show(Flat(Map(q, LAMBDA x : <<x, x>>))))
   \/ Do("unique" \o c, Show(Unique(q)))
   \/ Do("all_distinct" \o c, B(Cardinality(Range(q)) = Len(q)))
   \/ Do("all_same" \o c, B(Cardinality(Range(q)) <= 1))
   \/ Do("apply" \o c, "Box" \o Show(q))
   \/ Do("unpack" \o c, Show(q))
   \/ Do("tuple" \o c, Show(q))
   \/ Do("for_each" \o c, Digits(q))
   \/ Do("fold" \o c, "(" \o Digits(q) \o ")")
   \/ Do("foldmove" \o c, T(Len(q)))
   \/ \E x \in 1..4 : Do("count" \o c \o " " \o T(x), T(Cardinality({k \in 1..Len(q) : q[k] = x}))) \/ Do("contains" \o c \o " " \o T(x), B(x \in Range(q)))
   \/ \E P \in SUBSET Types : LET a == c \o " " \o Mask(P) IN
        \/ Do("filter" \o a, Show(Select(q, P)))
        \/ Do("find_if" \o a, Found(q, P))
        \/ Do("position" \o a, Index(q, P))
        \/ Do("all_of" \o a, B(Range(q) \subseteq P))
        \/ Do("any_of" \o a, B(Range(q) \cap P # {}))
        \/ Do("none_of" \o a, B(Range(q) \cap P = {}))
Small == Upto(Concats)
Several == \/ Do("concat0", "[]")
           \/ \E p \in Small : Do("concat1 " \o Code(p), Show(p))
           \/ \E p, q \in Small : Do("concat2 " \o Code(p) \o " " \o Code(q), Show(p \o q)) \/ Do("flatten2 " \o Code(p) \o " " \o Code(q), Show(p \o q))
           \/ \E p, q, r \in Upto(1) : Do("concat3 " \o Code(p) \o " " \o Code(q) \o " " \o Code(r), Show(p \o q \o r)) \/ Do("flatten3 " \o Code(p) \o " " \o Code(q) \o " " \o Code(r), Show(p \o q \o r))
           \/ Do("flatten0", "[]")
Made == \/ \E n \in 0..7 \cup {16, 17, 65} : Do("generate " \o T(n), Show([k \in 1..n |-> ((k - 1) % 3) + 1])) \/ Do("indices " \o T(n), "[" \o Join([k \in 1..n |-> "#" \o T(k - 1)]) \o "]")
        \/ \E x \in {<<"int", "[i5i-1i5]">>, <<"char", "[c97c0]">>, <<"none", "[]">>, <<"unsigned", "[u4294967295]">>, <<"bool", "[b1b0]">>} : Do("sequence " \o x[1], x[2])
        \/ \E x \in {<<"pair", "[12]">>, <<"array0", "[]">>, <<"array3", "[111]">>, <<"complex", "[11]">>} : Do("tuplelike " \o x[1], x[2])
        \/ \E x \in {<<"neither", "none none">>, <<"type", "2 none">>, <<"value", "none 7">>, <<"both", "3 8">>} : Do("opt " \o x[1], x[2])
Next == Simple \/ Several \/ Made
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
