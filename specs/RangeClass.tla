----------------------------- MODULE RangeClass -----------------------------
(* range() for value types that are not integral: classes, floating point numbers, pointers and     *)
(* points in time, with a step of the same or of another type. Forward iteration only.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Max, Same      \* Same: the step has the type of the values
VARIABLES s, lab
T(x) == ToString(x)
Values == (-Max)..Max
Before(x, stop, step) == IF step > 0 THEN x < stop ELSE x > stop
RECURSIVE From(_, _, _)
From(x, stop, step) == IF Before(x, stop, step) THEN <<x>> \o From(x + step, stop, step) ELSE <<>>
RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE T(Head(q)) \o "," \o Show(Tail(q))
Do(op, r) == s' = s /\ lab' = <<op, r>>
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Stepped == \E x, y \in Values, st \in Values : Do("range " \o T(x) \o " " \o T(y) \o " " \o T(st), IF st = 0 THEN "invalid_argument" ELSE Show(From(x, y, st)))
Default == Same /\ \E x, y \in Values : \/ Do("range2 " \o T(x) \o " " \o T(y), Show(From(x, y, 1)))
                                        \/ x = 0 /\ Do("range1 " \o T(y), Show(From(0, y, 1)))
Next == Stepped \/ Default
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
\* as many elements as the distance has steps, rounded up
Count == \A x, y \in Values, st \in 1..Max : /\ Len(From(x, y, st)) = IF y <= x THEN 0 ELSE (y - x + st - 1) \div st
                                             /\ Len(From(x, y, -st)) = IF x <= y THEN 0 ELSE (x - y + st - 1) \div st
=============================================================================
