------------------------------ MODULE IntTuple ------------------------------
(* integral_template_tuple<first, last, T>: N elements in the order of the declared range. The   *)
(* position k stands for the integer first + k - 1 (ascending) or first - k + 1 (descending).    *)
(* An element is its value, or 9 after something was moved out of it.                            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, Sub    \* Sub: element types are standard layout (subtuple)
VARIABLES s, lab

V == {0, 1}
Gone == 9
Cats == {"lvalue", "const", "rvalue", "crvalue"}
RECURSIVE Show(_, _)
Show(q, k) == IF q = <<>> THEN "" ELSE ToString(k) \o ":" \o ToString(q[1]) \o (IF Len(q) > 1 THEN " " \o Show(Tail(q), k + 1) ELSE "")
Text(q) == Show(q, 1)
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN "" ELSE ToString(q[1]) \o Code(Tail(q))
Tuples == [1..N -> V]
AllGone == [k \in 1..N |-> Gone]

\* every step reports its result and then all elements
Do(op, r, t) == s' = t /\ lab' = <<op, r \o "|" \o Text(t)>>

Default == Do("default", "", [k \in 1..N |-> 0])
Uniform == \E v \in V, how \in {"one", "two", "lvalue", "token", "ltoken"} : Do("uniform " \o ToString(v) \o " " \o how, "", [k \in 1..N |-> v])
Individual == \E t \in Tuples, how \in {"ind", "pos", "indl"} : Do("make " \o Code(t) \o " " \o how, "", t)
Set == \E k \in 1..N, v \in V : Do("set " \o ToString(k) \o " " \o ToString(v), "", [s EXCEPT ![k] = v])
Get == \E k \in 1..N, c \in Cats : Do("get " \o ToString(k) \o " " \o c, ToString(k) \o ":" \o ToString(s[k]), s)
Take == \E k \in 1..N : Do("take " \o ToString(k), ToString(k) \o ":" \o ToString(s[k]), [s EXCEPT ![k] = Gone])
Visit == \E c \in {"lvalue", "const", "rvalue"} : Do("visit " \o c, Text(s) \o " last " \o ToString(N), s)
VisitWrite == Do("visitset", "", [k \in 1..N |-> k % 2])
Copy == Do("copy", Text(s), s)
Move == Do("move", Text(s), AllGone)
CopyAssign == \E t \in Tuples : Do("assign " \o Code(t), "", t)
MoveAssign == \E t \in Tuples : Do("massign " \o Code(t), "", t)
\* the lexicographical order of the elements
RECURSIVE Cmp(_, _)
Cmp(x, y) == IF x = <<>> THEN "=" ELSE IF x[1] < y[1] THEN "<" ELSE IF x[1] > y[1] THEN ">" ELSE Cmp(Tail(x), Tail(y))
Compare == \E t \in Tuples : Do("cmp " \o Code(t), Cmp(s, t), s)
\* part of the tuple from position i, n elements (n = 0 only from the start)
Parts == {p \in (1..N) \X (0..N) : p[1] + p[2] <= N + 1 /\ (p[2] = 0 => p[1] = 1)}
P(p) == ToString(p[1]) \o " " \o ToString(p[2])
SubGet == Sub /\ \E p \in Parts, c \in Cats : Do("sub " \o P(p) \o " " \o c, Show(SubSeq(s, p[1], p[1] + p[2] - 1), p[1]), s)
SubSet == Sub /\ \E p \in Parts, v \in V : \E k \in p[1]..(p[1] + p[2] - 1) :
            Do("subset " \o P(p) \o " " \o ToString(k) \o " " \o ToString(v), "", [s EXCEPT ![k] = v])
\* a part of a part
SubSub == Sub /\ \E p \in Parts : p[2] > 1 /\ Do("subsub " \o P(p), Show(SubSeq(s, p[1] + 1, p[1] + p[2] - 1), p[1] + 1), s)
Layout == Do("layout", "increasing", s)

Init == s = [k \in 1..N |-> 0] /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Next == Default \/ Uniform \/ Individual \/ Set \/ Get \/ Take \/ Visit \/ VisitWrite \/ Copy \/ Move \/ CopyAssign \/ MoveAssign \/ Compare \/ SubGet \/ SubSet \/ SubSub \/ Layout
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
TypeOK == \A k \in 1..N : s[k] \in V \cup {Gone}
=============================================================================
