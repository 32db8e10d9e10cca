------------------------------- MODULE SLTuple -------------------------------
(* standard_layout_tuple and the tuple algorithms. The elements are given by their kinds:        *)
(*   c char   i int   l long long   d double (value 2 is NaN)   e empty class   t nested tuple   *)
(*   s class with a destructor, emptied by moving   m the same, move-only                        *)
(* s is the sequence of the values of the elements (0, 1; 2 = NaN; 9 = something moved out).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Cfg
VARIABLES s, lab

Kinds == CASE Cfg = "i" -> <<"i">>            [] Cfg = "s" -> <<"s">>           [] Cfg = "m" -> <<"m">>        [] Cfg = "t" -> <<"t">>
           [] Cfg = "ci" -> <<"c", "i">>      [] Cfg = "li" -> <<"l", "i">>     [] Cfg = "ii" -> <<"i", "i">>  [] Cfg = "sd" -> <<"s", "d">>
           [] Cfg = "cil" -> <<"c", "i", "l">> [] Cfg = "lic" -> <<"l", "i", "c">> [] Cfg = "iei" -> <<"i", "e", "i">> [] Cfg = "eci" -> <<"e", "c", "i">>
           [] Cfg = "sms" -> <<"s", "m", "s">> [] Cfg = "dtd" -> <<"d", "t", "d">> [] Cfg = "sss" -> <<"s", "s", "s">> [] Cfg = "cclc" -> <<"c", "c", "l", "c">>
           [] Cfg = "iiii" -> <<"i", "i", "i", "i">> [] Cfg = "sitc" -> <<"s", "i", "t", "c">>
N == Len(Kinds)
Vals(k) == IF k = "e" THEN {0} ELSE IF k = "d" THEN {0, 1, 2} ELSE {0, 1}
Movers == {"s", "m"}
Moved(t) == [k \in 1..N |-> IF Kinds[k] \in Movers THEN 9 ELSE t[k]]
Copyable == \A k \in 1..N : Kinds[k] # "m"
Unique(k) == \A j \in 1..N : Kinds[j] = Kinds[k] => j = k
Align == [c |-> 1, i |-> 4, l |-> 8, d |-> 8, e |-> 1, t |-> 4, s |-> 8, m |-> 8]
Tuples == {t \in [1..N -> {0, 1, 2}] : \A k \in 1..N : t[k] \in Vals(Kinds[k])}
\* literals that other tuples are compared with and assigned from
RECURSIVE Show(_, _)
Show(q, k) == IF q = <<>> THEN "" ELSE ToString(k) \o ":" \o ToString(q[1]) \o (IF Len(q) > 1 THEN " " \o Show(Tail(q), k + 1) ELSE "")
Text(q) == Show(q, 1)
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN "" ELSE ToString(q[1]) \o Code(Tail(q))
P(n) == ToString(n)
Cats == {"lvalue", "const", "rvalue", "crvalue"}
Do(op, r, t) == s' = t /\ lab' = <<op, r \o "|" \o Text(t)>>

Default == Do("default", "", [k \in 1..N |-> 0])
Make == \E t \in Tuples, how \in {"ind", "pos"} \cup (IF Copyable THEN {"lind", "lpos"} ELSE {}) : Do("make " \o Code(t) \o " " \o how, "", t)
\* every element from the same argument
Uniform == (\A j \in 1..N : Kinds[j] \notin {"e", "t"}) /\ \E v \in {0, 1} : Do("uniform " \o P(v), "", [j \in 1..N |-> v])
Set == \E k \in 1..N : \E v \in Vals(Kinds[k]) : Do("set " \o P(k) \o " " \o P(v), "", [s EXCEPT ![k] = v])
Get == \E k \in 1..N, c \in Cats, how \in {"index", "type"} : (how = "type" => Unique(k)) /\
         Do("get " \o P(k) \o " " \o c \o " " \o how, P(k) \o ":" \o P(s[k]), s)
Take == \E k \in 1..N, how \in {"index", "type"} : (how = "type" => Unique(k)) /\
         Do("take " \o P(k) \o " " \o how, P(k) \o ":" \o P(s[k]), [s EXCEPT ![k] = Moved(s)[k]])
Copy == Copyable /\ \E how \in {"copy", "nonconst"} : Do("copy " \o how, Text(s), s)
Move == Do("move", Text(s), Moved(s))
Assign == \E t \in Tuples, how \in {"move"} \cup (IF Copyable THEN {"copy"} ELSE {}) : Do("assign " \o Code(t) \o " " \o how, "", t)
RECURSIVE Cmp(_, _, _)
Cmp(x, y, k) == IF k > N THEN "="
                ELSE IF Kinds[k] = "d" /\ (x[k] = 2 \/ y[k] = 2) THEN "?"
                ELSE IF x[k] < y[k] THEN "<" ELSE IF x[k] > y[k] THEN ">" ELSE Cmp(x, y, k + 1)
Compare == \E t \in Tuples : Do("cmp " \o Code(t), Cmp(s, t, 1), s)
Bind == \E how \in {"ref", "const"} : Do("bind " \o how, Text(s), s)
Layout == Do("layout", "increasing", s)

\* a prefix of the elements from i on is a window if leaving out the rest does not change the layout (known finding otherwise)
MaxAlign(i, j) == CHOOSE a \in {Align[Kinds[k]] : k \in i..j} : \A k \in i..j : Align[Kinds[k]] <= a
Window(i, n) == \A k \in i..(i + n - 2) : MaxAlign(k + 1, N) = MaxAlign(k + 1, i + n - 1)
Parts == {p \in (1..N) \X (0..N) : p[1] + p[2] <= N + 1 /\ Window(p[1], p[2])}
Sub == \E p \in Parts, c \in Cats : Do("sub " \o P(p[1]) \o " " \o P(p[2]) \o " " \o c, Show(SubSeq(s, p[1], p[1] + p[2] - 1), p[1]), s)
SubSet == \E p \in Parts : \E k \in p[1]..(p[1] + p[2] - 1) : \E v \in Vals(Kinds[k]) :
            Do("subset " \o P(p[1]) \o " " \o P(p[2]) \o " " \o P(k) \o " " \o P(v), "", [s EXCEPT ![k] = v])

\* algorithms, on the tuple and on a std::tuple of the same elements
Which == {"slt", "std"}
ForEach == \E w \in Which, c \in Cats : Do("each " \o w \o " " \o c, Text(s) \o " last " \o P(N), s)
EachThrow == \E w \in Which, n \in 1..N : Do("eachthrow " \o w \o " " \o P(n), Show(SubSeq(s, 1, n), 1) \o " thrown", s)
Fold == \E w \in Which, acc \in {"rvalue", "lvalue", "moveonly", "const"} : Do("fold " \o w \o " " \o acc, "x " \o Text(s), s)
RECURSIVE KindText(_)
KindText(q) == IF q = <<>> THEN "" ELSE q[1] \o KindText(Tail(q))
TypeFold == \E w \in Which, acc \in {"rvalue", "lvalue", "moveonly", "const"} : Do("typefold " \o w \o " " \o acc, "x " \o KindText(Kinds), s)
TypeEach == \E w \in Which : Do("typeeach " \o w, KindText(Kinds) \o " last " \o Kinds[N], s)

Init == s = [k \in 1..N |-> 0] /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Next == Default \/ Make \/ Uniform \/ Set \/ Get \/ Take \/ Copy \/ Move \/ Assign \/ Compare \/ Bind \/ Layout \/ Sub \/ SubSet
        \/ ForEach \/ EachThrow \/ Fold \/ TypeFold \/ TypeEach
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
TypeOK == \A k \in 1..N : s[k] \in Vals(Kinds[k]) \cup (IF Kinds[k] \in Movers THEN {9} ELSE {})
\* the order is antisymmetric and only equality relates a tuple to itself
OrderOK == \A t \in Tuples : /\ (Cmp(s, t, 1) = "<") = (Cmp(t, s, 1) = ">")
                             /\ (Cmp(s, t, 1) = "=") => s = t
=============================================================================
