------------------------------ MODULE FlexBig ------------------------------
(* Two flex_arrays of one mode at every order of magnitude. The elements of an array are given by a *)
(* seed: element i of seed e is the number X(e, i), different for all e and i; what distinguishes    *)
(* one content from another is a seed, a length, and one position where it departs from the pattern. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Mode, N,      \* as in FlexArray
          Sizes,        \* the sizes explored
          Fine          \* departures at several positions, not only the last
VARIABLES s, lab
V == {1, 2}
T(x) == ToString(x)
Other(k) == 3 - k
Fits(n) == IF Mode = "static" THEN n = N ELSE Mode = "dynamic" \/ n <= N
Ok == {n \in Sizes : Fits(n)}
Bad == Sizes \ Ok
\* an array: e seed, n length, p position of the element that is one larger than the pattern says (-1: none)
Arr(e, n, p) == [e |-> e, n |-> n, p |-> p]
Empty == Arr(1, IF Mode = "static" THEN N ELSE 0, -1)
Places(n) == {p \in IF Fine THEN {0, n \div 2, n - 1} ELSE {n - 1} : 0 <= p /\ p < n}
Show(a) == T(a.n) \o ":" \o T(a.e) \o (IF a.p < 0 THEN "" ELSE "+" \o T(a.p))
Do(op, t, note) == s' = t /\ lab' = <<op, note \o " " \o Show(t[1]) \o " " \o Show(t[2])>>
Init == s = <<Empty, Empty>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Source == {"ptr", "input", "fwd", "ra", "counted"}
Build == \E k \in V, f \in Source, e \in {1, 2}, n \in Ok : (f = "ptr" \/ e = k) /\
           Do(f \o " " \o T(k) \o " " \o T(e) \o " " \o T(n), [s EXCEPT ![k] = Arr(e, n, -1)], "ok")
TooLong == \E k \in V, f \in Source, n \in Bad : n > N /\ Do(f \o " " \o T(k) \o " 2 " \o T(n), s, "length_error")
Conv == \E k \in V, f \in {"limited", "dynamic"}, n \in Sizes : Mode = "static" /\
          IF n = N THEN Do("conv-" \o f \o " " \o T(k) \o " 2 " \o T(n), [s EXCEPT ![k] = Arr(2, n, -1)], "ok")
          ELSE Do("conv-" \o f \o " " \o T(k) \o " 2 " \o T(n), s, "length_error")
Copy == \E k \in V, op \in {"copy", "asg"} : Do(op \o " " \o T(k), [s EXCEPT ![k] = s[Other(k)]], "ok")
\* the array moved from is then default constructed
Move == \E k \in V, op \in {"move", "masg"} : Do(op \o " " \o T(k), [s EXCEPT ![k] = s[Other(k)], ![Other(k)] = Empty], "ok")
Swap == Do("swap", <<s[2], s[1]>>, "ok")
\* the driver writes the elements that resize adds, after the pattern
Resize == \E k \in V, n \in Sizes : Mode # "static" /\
            IF Fits(n) THEN Do("resize " \o T(k) \o " " \o T(n), [s EXCEPT ![k] = Arr(s[k].e, n, IF s[k].p < n THEN s[k].p ELSE -1)], "ok")
            ELSE Do("resize " \o T(k) \o " " \o T(n), s, "invalid_argument")
Write == \E k \in V, w \in {"ix", "rit", "span"} : \E p \in Places(s[k].n) :
           \/ s[k].p = -1 /\ Do(w \o " " \o T(k) \o " " \o T(p) \o " up", [s EXCEPT ![k].p = p], "ok")
           \/ s[k].p = p /\ Do(w \o " " \o T(k) \o " " \o T(p) \o " down", [s EXCEPT ![k].p = -1], "ok")
\* all elements of seed 1 are smaller than those of seed 2
Min(a, b) == IF a < b THEN a ELSE b
Cmp(a, b) == LET m == Min(a.n, b.n)  pa == IF a.p < m THEN a.p ELSE -1  pb == IF b.p < m THEN b.p ELSE -1 IN
             IF m > 0 /\ a.e # b.e THEN (IF a.e < b.e THEN "less" ELSE "greater")
             ELSE IF pa # pb THEN (IF pb = -1 \/ (pa # -1 /\ pa < pb) THEN "greater" ELSE "less")
             ELSE IF a.n = b.n THEN "equal" ELSE IF a.n < b.n THEN "less" ELSE "greater"
Compare == Do("cmp", s, Cmp(s[1], s[2]))
Next == Build \/ TooLong \/ Conv \/ Copy \/ Move \/ Swap \/ Resize \/ Write \/ Compare
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
SizeOK == \A k \in V : Fits(s[k].n) /\ s[k].p < s[k].n
Dual == LET a == Cmp(s[1], s[2])  b == Cmp(s[2], s[1]) IN IF a = "less" THEN b = "greater" ELSE IF a = "greater" THEN b = "less" ELSE b = a
=============================================================================
