---------------------------- MODULE Variant2Obs ----------------------------
(* Observers of variant2<A, B>: what index, holds_alternative, get, get_if, visit, comparison,  *)
(* hash and formatting report for every pair of states (as for std::variant<A, B>).             *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS TA, TB     \* names of the alternative types
VARIABLES s, lab

\* per type: how each value prints, its rank (equal ranks compare equal, 0 is unordered with everything)
\* and whether the type can be ordered at all
Ty(t) ==
  CASE t = "Int"  -> [fmt |-> <<"-5", "0", "7">>,      rank |-> <<1, 2, 3>>,    ord |-> TRUE]
    [] t = "Dbl"  -> [fmt |-> <<"-0", "0", "1.5", "nan">>, rank |-> <<1, 1, 2, 0>>, ord |-> TRUE]
    [] t = "Str"  -> [fmt |-> <<"", "a", "ab">>,       rank |-> <<1, 2, 3>>,    ord |-> TRUE]
    [] t = "Weak" -> [fmt |-> <<"w1", "w2", "w3">>,    rank |-> <<1, 1, 2>>,    ord |-> TRUE]
    [] t = "EqOnly" -> [fmt |-> <<"e1", "e2">>,        rank |-> <<1, 2>>,       ord |-> FALSE]
Alt(i) == IF i = 0 THEN Ty(TA) ELSE Ty(TB)
T(x) == ToString(x)

V == {1, 2}
None == [i |-> 2, x |-> 0]        \* alternative 2: valueless
Val(i, x) == [i |-> i, x |-> x]
States == {None} \cup UNION {{Val(i, x) : x \in 1..Len(Alt(i).fmt)} : i \in {0, 1}}
Key(v) == T(v.i) \o "." \o T(v.x)

Show(v) == IF v.i = 2 THEN "none" ELSE Alt(v.i).fmt[v.x]
\* result of get / get_if of alternative j
Get(v, j) == IF v.i = j THEN Show(v) ELSE "throws"
GetIf(v, j) == IF v.i = j THEN Show(v) ELSE "null"
Visit(v) == IF v.i = 2 THEN "throws" ELSE T(v.i) \o ":" \o Show(v)
Format(v) == IF v.i = 2 THEN "variant(valueless by exception)" ELSE "variant(" \o Show(v) \o ")"
B(x) == IF x THEN "T" ELSE "F"
Observe(v) == "index=" \o T(v.i) \o " valueless=" \o B(v.i = 2) \o " holds=" \o B(v.i = 0) \o B(v.i = 1)
               \o " get=" \o Get(v, 0) \o "," \o Get(v, 1) \o " get_if=" \o GetIf(v, 0) \o "," \o GetIf(v, 1)
               \o " visit=" \o Visit(v) \o " format=" \o Format(v)

\* 0 equal 1 less 2 greater 3 unordered
Cmp(a, b) == IF a.i # b.i THEN (IF a.i = 2 THEN 1 ELSE IF b.i = 2 THEN 2 ELSE IF a.i < b.i THEN 1 ELSE 2)
             ELSE IF a.i = 2 THEN 0
             ELSE LET p == Alt(a.i).rank[a.x]  q == Alt(a.i).rank[b.x] IN
                  IF p = 0 \/ q = 0 THEN 3 ELSE IF p = q THEN 0 ELSE IF p < q THEN 1 ELSE 2
Ordered == Ty(TA).ord /\ Ty(TB).ord

Init == s = <<Val(0, 1), Val(0, 1)>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Set == \E k \in V, v \in States : s' = [s EXCEPT ![k] = v] /\ lab' = <<"set " \o T(k) \o " " \o T(v.i) \o " " \o T(v.x), Format(v)>>
Obs == \E k \in V : s' = s /\ lab' = <<"obs " \o T(k), Observe(s[k])>>
\* visit, get and get_if give the held object itself, with the category of the variant
Cat == \E k \in V : s' = s /\ lab' = <<"cat " \o T(k), IF s[k].i = 2 THEN "throws" ELSE "same object">>
Compare == s' = s /\ lab' = <<"cmp", IF Ordered THEN T(Cmp(s[1], s[2])) ELSE B(Cmp(s[1], s[2]) = 0)>>
Hash == s' = s /\ lab' = <<"hash", IF Cmp(s[1], s[2]) = 0 THEN "equal" ELSE "any">>
Next == Set \/ Obs \/ Cat \/ Compare \/ Hash
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))

TypeOK == \A k \in V : s[k] \in States
OrderOK == /\ Cmp(s[1], s[2]) = <<0, 2, 1, 3>>[Cmp(s[2], s[1]) + 1]
           /\ \A v \in States : (Cmp(s[1], v) = 1 /\ Cmp(v, s[2]) = 1) => Cmp(s[1], s[2]) = 1
           /\ \A v \in States : (Cmp(s[1], v) = 0 /\ Cmp(v, s[2]) = 0) => Cmp(s[1], s[2]) = 0
=============================================================================
