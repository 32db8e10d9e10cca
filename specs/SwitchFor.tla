------------------------------ MODULE SwitchFor ------------------------------
(* switch_cases / switch_bool and for_types / for_values / for_range. *)
EXTENDS Ranges, Json

CONSTANT Is8
VARIABLES s, lab

\* conditions: everything around the bounds, the middle and the ends of the type
Around(x) == {c \in {Plus(x, d) : d \in -2..2} : InT(c)}
Conds(r) == UNION {Around(x) : x \in {r[1], r[2], MinP, MaxP, <<MidA, 0>>, <<MidA - 1, 0>>, <<MidA + 1, 0>>}}
Do(op, r) == s' = s /\ lab' = <<op, r>>

\* the calls made: which handler with which constant, and what came back
Chosen(r, c) == IF Le(Lo(r), c) /\ Lt(c, Hi(r)) THEN "case " \o N(c) ELSE "default"
\* how: value category / result type of the handlers
Hows == {"ref", "val", "void", "move"}
Switch == \E i \in 1..Len(Ranges) : \E c \in Conds(Ranges[i]), how \in Hows :
            Do("switch " \o ToString(i) \o " " \o N(c) \o " " \o how, Chosen(Ranges[i], c))
\* without a fallback the condition has to be in the range
SwitchNoDefault == \E i \in 1..Len(Ranges) : \E c \in Conds(Ranges[i]) :
            /\ Chosen(Ranges[i], c) # "default"
            /\ Do("switchnd " \o ToString(i) \o " " \o N(c), Chosen(Ranges[i], c))
\* one bound: from 0 (the harness instantiates these bounds, by their index)
Lasts == << <<MidA, 4>>, <<MidA, 0>>, Plus(MinP, 1), MinP >>
Zero == <<0, 0>>
\* only bounds next to 0 are instantiated
LastRanges == {i \in 1..Len(Lasts) : Lasts[i][1] = 0}
SwitchLast == \E i \in LastRanges : LET r == <<Zero, Lasts[i]>> IN \E c \in Conds(r) :
            \/ Do("switchlast " \o ToString(i) \o " " \o N(c), Chosen(r, c))
            \/ Chosen(r, c) # "default" /\ Do("switchlastnd " \o ToString(i) \o " " \o N(c), Chosen(r, c))
SwitchBool == \E x \in BOOLEAN, how \in Hows : Do("bool " \o (IF x THEN "T" ELSE "F") \o " " \o how, IF x THEN "T" ELSE "F")

ForRange == \E i \in 1..Len(Ranges) : \E how \in {"lvalue", "const", "rvalue"} : Do("range " \o ToString(i) \o " " \o how, Join(RangeSeq(Ranges[i])))

\* lists of values and types: every sequence of up to three entries is instantiated
Lists(n) == UNION {[1..k -> 1..3] : k \in 0..n}
Vals == <<"int 7", "char c", "bool T">>
Types == <<"int", "int const &", "Tag">>
Code(q) == IF q = <<>> THEN "-" ELSE IF Len(q) = 1 THEN ToString(q[1]) ELSE IF Len(q) = 2 THEN ToString(q[1]) \o ToString(q[2])
           ELSE ToString(q[1]) \o ToString(q[2]) \o ToString(q[3])
RECURSIVE JoinC(_)
JoinC(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o JoinC(Tail(q))
ForValues == \E q \in Lists(3) : Do("values " \o Code(q), JoinC([k \in 1..Len(q) |-> Vals[q[k]]]))
ForTypes == \E q \in Lists(3) : Do("types " \o Code(q), JoinC([k \in 1..Len(q) |-> Types[q[k]]]))
\* a body that throws at its n-th call: the rest is not visited
ForThrow == \E n \in 1..4, w \in {"range", "values", "types"} :
              Do("throw " \o w \o " " \o ToString(n), Join([k \in 1..(IF n < 3 THEN n ELSE 3) |-> "x"]) \o (IF n <= 3 THEN " thrown" ELSE ""))

\* the callable is the object that was passed: it is never copied, and its state carries over from call to call;
\* an lvalue keeps the state for the next loop
ForState == \E w \in {"range", "values", "types"} : \/ \E n \in 1..3 : Do("state " \o w \o " lvalue " \o ToString(n), Join([k \in 1..(3 * n) |-> ToString(k)]))
                                                    \/ \E how \in {"rvalue", "moveonly"} : Do("state " \o w \o " " \o how \o " 1", "1 2 3")
SwitchState == \E w \in {"cases", "bool"}, n \in 1..3 : Do("state " \o w \o " lvalue " \o ToString(n), Join([k \in 1..n |-> ToString(k)]))
\* a body whose rvalue overload does not throw, but which is called as an lvalue
ThrowAsLvalue == \E w \in {"range", "values", "types"} : Do("throwlv " \o w, "thrown")

\* long ranges: 255 cases for 8 bit types, 300 for the others; every condition in and next to them
WideLo == IF Is8 THEN (IF Signed THEN -128 ELSE 0) ELSE IF Signed THEN -150 ELSE 0
WideHi == IF Is8 THEN WideLo + 255 ELSE WideLo + 300
WideConds == {c \in (WideLo - 2)..(WideHi + 2) : IF Is8 THEN c >= WideLo /\ c <= WideHi ELSE (Signed \/ c >= 0)}
SwitchWide == \E up \in BOOLEAN, c \in WideConds : Do("wide " \o (IF up THEN "up " ELSE "down ") \o ToString(c), IF c < WideHi /\ c >= WideLo THEN ToString(c) ELSE "default")
ForWide == \E up \in BOOLEAN : Do("widefor " \o (IF up THEN "up" ELSE "down"), Join(IF up THEN [k \in 1..(WideHi - WideLo) |-> ToString(WideLo + k - 1)] ELSE [k \in 1..(WideHi - WideLo) |-> ToString(WideHi - k + 1)]))
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Next == Switch \/ SwitchNoDefault \/ SwitchLast \/ SwitchBool \/ ForRange \/ ForValues \/ ForTypes \/ ForThrow \/ ForState \/ SwitchState \/ ThrowAsLvalue \/ SwitchWide \/ ForWide
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
\* every case of a range is chosen by exactly one condition, and every value of a loop is in the range
Covered == \A i \in 1..Len(Ranges) : LET r == Ranges[i] IN
             /\ Dist(Lo(r), Hi(r)) = Len(RangeSeq(r))
             /\ \A k \in 1..Len(RangeSeq(r)) : \A m \in 1..Len(RangeSeq(r)) : RangeSeq(r)[k] = RangeSeq(r)[m] => k = m
=============================================================================
