----------------------------- MODULE FlexArray -----------------------------
(* Two flex_arrays of the same mode ("static", "limited", "dynamic"), as sequences of element   *)
(* tokens. Token 3 is a value unordered with everything (NaN), if Nan is set.                    *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Mode, N,      \* extent ("static"), maximum ("limited") or largest size explored ("dynamic")
          Nan

VARIABLES s, lab

V == {1, 2}
T(x) == ToString(x)
Other(k) == 3 - k
Tok == IF Nan THEN {1, 2, 3} ELSE {1, 2}
RECURSIVE SeqsOf(_)
SeqsOf(n) == IF n = 0 THEN {<<>>} ELSE {Append(p, c) : p \in SeqsOf(n - 1), c \in Tok}
\* representatives of the contents of length n: everything for short ones, patterns beyond
Reps(n) == IF n <= 3 /\ ~Nan THEN SeqsOf(n)
           ELSE IF n <= 2 THEN SeqsOf(n)
           ELSE {[i \in 1..n |-> IF i = p THEN c ELSE 1] : p \in {1, (n + 1) \div 2, n}, c \in Tok}
Fits(n) == IF Mode = "static" THEN n = N ELSE n <= N
Ones(n) == [i \in 1..n |-> 1]
Contents == IF Mode = "static" THEN Reps(N) ELSE UNION {Reps(n) : n \in 0..N}
RECURSIVE Str(_)
Str(x) == IF x = <<>> THEN "" ELSE T(x[1]) \o Str(Tail(x))
S2(x) == IF x = <<>> THEN "-" ELSE Str(x)
Obs(t) == S2(t[1]) \o "|" \o S2(t[2])
Do(op, t, note) == s' = t /\ lab' = <<op, note \o Obs(t)>>
Empty == IF Mode = "static" THEN Ones(N) ELSE <<>>

\* comparison of two elements: 0 equal 1 less 2 greater 3 unordered
CE(a, b) == IF a = 3 \/ b = 3 THEN 3 ELSE IF a = b THEN 0 ELSE IF a < b THEN 1 ELSE 2
RECURSIVE Cmp(_, _)
Cmp(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN 1 ELSE IF b = <<>> THEN 2
             ELSE LET c == CE(a[1], b[1]) IN IF c # 0 THEN c ELSE Cmp(Tail(a), Tail(b))

Init == s = <<Empty, Empty>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

\* the elements of a default-constructed static array are written by the driver
Default == \E k \in V : Do("def " \o T(k), [s EXCEPT ![k] = Empty], "ok ")
\* sources: initialiser lists, ranges by iterator category, arrays of the other modes
TooLong == {n \in {N + 1, N + 2} : n > N}
Source == {"list", "input", "stream", "fwd", "bidi", "ra", "counted", "ptr"}
Build == \E k \in V, f \in Source, c \in Contents :
           Do(f \o " " \o T(k) \o " " \o S2(c), [s EXCEPT ![k] = c], "ok ")
BuildLong == \E k \in V, f \in Source, n \in TooLong :
           Mode # "dynamic" /\ Do(f \o " " \o T(k) \o " " \o S2(Ones(n)), s, "length_error ")
BuildShort == \E k \in V, n \in 0..(N - 1) :
           Mode = "static" /\ Do("list " \o T(k) \o " " \o S2(Ones(n)), s, "length_error ")
\* conversions: from the limited and dynamic modes to static, from static to limited and dynamic
Conv == \E k \in V, f \in IF Mode = "static" THEN {"limited", "dynamic"} ELSE {"static"}, c \in Contents :
           Do("conv-" \o f \o " " \o T(k) \o " " \o S2(c), [s EXCEPT ![k] = c], "ok ")
ConvBad == \E k \in V, f \in {"limited", "dynamic"}, n \in 0..(N + 1) :
           Mode = "static" /\ n # N /\ Do("conv-" \o f \o " " \o T(k) \o " " \o S2(Ones(n)), s, "length_error ")
Copy == \E k \in V, op \in {"copy", "asg"} : Do(op \o " " \o T(k) \o " " \o T(Other(k)), [s EXCEPT ![k] = s[Other(k)]], "ok ")
SelfAsg == \E k \in V : Do("asg " \o T(k) \o " " \o T(k), s, "ok ")
\* the source of a move is valid but unspecified; the driver gives it the default contents
Move == \E k \in V, op \in {"move", "masg"} : Do(op \o " " \o T(k) \o " " \o T(Other(k)), [s EXCEPT ![k] = s[Other(k)], ![Other(k)] = Empty], "ok ")
Swap == Do("swap", <<s[2], s[1]>>, "ok ")
\* the elements added by resize are written by the driver
Prefix(x, n) == [i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE 1]
Resize == \E k \in V, n \in 0..N : Mode # "static" /\ Prefix(s[k], n) \in Contents /\ Do("resize " \o T(k) \o " " \o T(n), [s EXCEPT ![k] = Prefix(s[k], n)], "ok ")
ResizeBad == \E k \in V, n \in {N + 1, N + 2, 1000000} : Mode = "limited" /\ Do("resize " \o T(k) \o " " \o T(n), s, "invalid_argument ")
Write == \E k \in V, f \in {"ix", "it", "rit", "data", "span", "for"}, c \in Tok : \E p \in 1..Len(s[k]) :
           LET n == [s[k] EXCEPT ![p] = c] IN n \in Contents /\ Do(f \o " " \o T(k) \o " " \o T(p - 1) \o " " \o T(c), [s EXCEPT ![k] = n], "ok ")
Compare == s' = s /\ lab' = <<"cmp", T(Cmp(s[1], s[2]))>>
Inspect == \E k \in V : Do("all " \o T(k), s, "ok ")

Next == Default \/ Build \/ BuildLong \/ BuildShort \/ Conv \/ ConvBad \/ Copy \/ SelfAsg \/ Move \/ Swap \/ Resize \/ ResizeBad \/ Write \/ Compare \/ Inspect
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))

SizeOK == \A k \in V : Fits(Len(s[k]))
OrderOK == Cmp(s[1], s[2]) = <<0, 2, 1, 3>>[Cmp(s[2], s[1]) + 1]
=============================================================================
