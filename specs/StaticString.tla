---------------------------- MODULE StaticString ----------------------------
(* Text semantics of basic_static_string: two string objects hold sequences of symbols.        *)
(* Symbol 0 is the null character, 1 an ordinary one, 2 one with all bytes in use (negative as  *)
(* a signed char). Key maps symbols to their position in the order of the character traits.     *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Short,      \* all contents up to this length
          Long,       \* lengths of long contents
          CI          \* case-insensitive traits: symbols 1 and 2 are equivalent

VARIABLES s, lab

Key == IF CI THEN <<0, 1, 1>> ELSE <<0, 1, 2>>   \* position of the symbols in the order
Sym == {0, 1, 2}
RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET P == SeqsUpTo(n - 1) IN P \cup {Append(p, c) : p \in {x \in P : Len(x) = n - 1}, c \in Sym}
\* n symbols 1, with c at position p
Rep(n, p, c) == [i \in 1..n |-> IF i = p THEN c ELSE 1]
Contents == SeqsUpTo(Short) \cup {Rep(n, 1, 1) : n \in Long} \cup {Rep(n, n, c) : n \in Long, c \in {0, 2}}
              \cup {Rep(n, 1, 2) : n \in Long} \cup {Rep(n, (n + 1) \div 2, 0) : n \in Long}

\* contents are written run-length encoded: 1*3.0*1 (always non-empty runs), "-" for the empty one
RECURSIVE Enc(_, _, _, _)
Enc(x, i, c, n) == IF i > Len(x) THEN ToString(c) \o "*" \o ToString(n)
                   ELSE IF x[i] = c THEN Enc(x, i + 1, c, n + 1)
                   ELSE ToString(c) \o "*" \o ToString(n) \o "." \o Enc(x, i + 1, x[i], 1)
Str(x) == IF x = <<>> THEN "-" ELSE Enc(x, 2, x[1], 1)

RECURSIVE Cmp(_, _, _)
Cmp(a, b, i) == IF i > Len(a) /\ i > Len(b) THEN 0
                ELSE IF i > Len(a) THEN 1      \* a < b
                ELSE IF i > Len(b) THEN 2      \* a > b
                ELSE IF Key[a[i] + 1] < Key[b[i] + 1] THEN 1
                ELSE IF Key[a[i] + 1] > Key[b[i] + 1] THEN 2
                ELSE Cmp(a, b, i + 1)

Obs(t) == Str(t[1]) \o "|" \o Str(t[2])
Do(op, t) == s' = t /\ lab' = <<op, Obs(t)>>
V == {1, 2}
T(x) == ToString(x)
Other(k) == 3 - k

Init == s = <<<<>>, <<>>>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

Make == \E k \in V, c \in Contents : Do("make " \o T(k) \o " " \o Str(c), [s EXCEPT ![k] = c])
Default == \E k \in V : Do("def " \o T(k), [s EXCEPT ![k] = <<>>])
Copy == \E k \in V, op \in {"copy", "asg"} : Do(op \o " " \o T(k) \o " " \o T(Other(k)), [s EXCEPT ![k] = s[Other(k)]])
SelfAsg == \E k \in V : Do("asg " \o T(k) \o " " \o T(k), s)
\* the source of a move is valid but unspecified; the driver overwrites it with the empty string
Move == \E k \in V, op \in {"move", "masg"} : Do(op \o " " \o T(k) \o " " \o T(Other(k)), [s EXCEPT ![k] = s[Other(k)], ![Other(k)] = <<>>])
Swap == Do("swap", <<s[2], s[1]>>)
Write == \E k \in V, c \in {0, 2}, form \in {"ix", "it", "rit", "data", "front", "back"} :
           \E p \in {1, Len(s[k]), (Len(s[k]) + 1) \div 2} :
             /\ Len(s[k]) > 0
             /\ form = "front" => p = 1
             /\ form = "back" => p = Len(s[k])
             /\ LET n == [s[k] EXCEPT ![p] = c] IN
                /\ n \in Contents
                /\ Do("write " \o T(k) \o " " \o form \o " " \o T(p - 1) \o " " \o T(c), [s EXCEPT ![k] = n])
Compare == /\ s' = s
           /\ lab' = <<"cmp", T(Cmp(s[1], s[2], 1))>>
\* every accessor of string k reports the contents
Inspect == \E k \in V : Do("all " \o T(k), s)

Next == Make \/ Default \/ Copy \/ SelfAsg \/ Move \/ Swap \/ Write \/ Compare \/ Inspect
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))

TypeOK == \A k \in V : s[k] \in Contents
\* the order is total, consistent with equality of keys and antisymmetric
OrderOK == Cmp(s[1], s[2], 1) = <<0, 2, 1>>[Cmp(s[2], s[1], 1) + 1]
=============================================================================
