----------------------------- MODULE IntVariant -----------------------------
(* integral_template_variant<first, last, T>: two variants. A variant is <<k, v>>, an object of  *)
(* the alternative in position k with value v (9: moved from), or <<0, 0>> after an exception    *)
(* left it without one. Position k stands for first + k - 1 (ascending) or first - k + 1.        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, Kind    \* "noex": nothing throws, "full": copying and moving may throw, "copy": only copying may throw,
                     \* "plain": nothing throws, the alternatives are not comparable
VARIABLES s, lab

V == {0, 1}
Gone == 9
None == <<0, 0>>
Vs == {1, 2}
X(i) == IF i = 1 THEN "a" ELSE "b"
Other(i) == 3 - i
Show(x) == IF x = None THEN "none" ELSE ToString(x[1]) \o ":" \o ToString(x[2])
CopyThrows == Kind \in {"copy", "full"}
Arms == IF ~CopyThrows THEN {"-"} ELSE IF Kind = "copy" THEN {"-", "copy"} ELSE {"-", "copy", "move"}
MoveThrows == Kind = "full"
Do(op, r, t) == s' = t /\ lab' = <<op, r \o "|" \o Show(t[1]) \o " " \o Show(t[2])>>
Thrown == "thrown"
P(n) == ToString(n)
Pos == 1..N
Emptied(x) == IF x = None THEN None ELSE <<x[1], Gone>>

Default == \E i \in Vs : Do("default " \o X(i), "", [s EXCEPT ![i] = <<1, 0>>])
\* new objects, from a value or in place
Make == \E i \in Vs, k \in Pos, v \in V, how \in {"copy", "move", "inplace"} :
          Do("make " \o X(i) \o " " \o P(k) \o " " \o P(v) \o " " \o how, "", [s EXCEPT ![i] = <<k, v>>])
\* assignment from an element: converted to a variant, then moved
AssignValue == \E i \in Vs, k \in Pos, v \in V, how \in {"copy", "move"} :
          Do("value " \o X(i) \o " " \o P(k) \o " " \o P(v) \o " " \o how, "", [s EXCEPT ![i] = <<k, v>>])
Emplace == \E i \in Vs, k \in Pos, v \in V : Do("emplace " \o X(i) \o " " \o P(k) \o " " \o P(v), Show(<<k, v>>), [s EXCEPT ![i] = <<k, v>>])
EmplaceThrow == \E i \in Vs, k \in Pos : Do("emplacethrow " \o X(i) \o " " \o P(k), Thrown, [s EXCEPT ![i] = None])
\* a temporary copy: only the result is seen
CopyCtor == \E i \in Vs, arm \in Arms : Do("cctor " \o X(i) \o " " \o arm, IF arm = "copy" /\ s[i] # None THEN Thrown ELSE Show(s[i]), s)
MoveCtor == \E i \in Vs, arm \in Arms : IF arm = "move" /\ s[i] # None THEN Do("mctor " \o X(i) \o " " \o arm, Thrown, s)
                                        ELSE Do("mctor " \o X(i) \o " " \o arm, Show(s[i]), [s EXCEPT ![i] = Emptied(s[i])])
\* variant assignment as for std::variant
CopyAssign == \E i \in Vs, arm \in Arms : LET o == Other(i)  x == s[i]  y == s[o]  op == "cassign " \o X(i) \o " " \o arm IN
   IF y = None THEN Do(op, "", [s EXCEPT ![i] = None])
   ELSE IF x # None /\ x[1] = y[1] THEN IF arm = "copy" THEN Do(op, Thrown, s) ELSE Do(op, "", [s EXCEPT ![i] = y])
   ELSE IF ~CopyThrows \/ MoveThrows \* constructed in place
        THEN IF arm = "copy" THEN Do(op, Thrown, [s EXCEPT ![i] = None]) ELSE Do(op, "", [s EXCEPT ![i] = y])
        ELSE IF arm = "copy" THEN Do(op, Thrown, s) ELSE Do(op, "", [s EXCEPT ![i] = y])
MoveAssign == \E i \in Vs, arm \in Arms : LET o == Other(i)  x == s[i]  y == s[o]  op == "massign " \o X(i) \o " " \o arm IN
   IF y = None THEN Do(op, "", [s EXCEPT ![i] = None])
   ELSE IF arm = "move" THEN Do(op, Thrown, IF x # None /\ x[1] = y[1] THEN s ELSE [s EXCEPT ![i] = None])
   ELSE Do(op, "", [s EXCEPT ![i] = y, ![o] = Emptied(y)])
SelfAssign == \E i \in Vs : Do("self " \o X(i), "", s)
Get == \E i \in Vs, k \in Pos, c \in {"lvalue", "const", "rvalue", "crvalue"} :
          Do("get " \o X(i) \o " " \o P(k) \o " " \o c, IF s[i][1] = k THEN Show(s[i]) ELSE "bad_variant_access", s)
Take == \E i \in Vs, k \in Pos : s[i][1] = k /\ Do("take " \o X(i) \o " " \o P(k), Show(s[i]), [s EXCEPT ![i] = Emptied(s[i])])
Set == \E i \in Vs, k \in Pos, v \in V : s[i][1] = k /\ Do("set " \o X(i) \o " " \o P(k) \o " " \o P(v), "", [s EXCEPT ![i][2] = v])
Holds == \E i \in Vs, k \in Pos, how \in {"index", "type"} : Do("holds " \o X(i) \o " " \o P(k) \o " " \o how, IF s[i][1] = k THEN "T" ELSE "F", s)
Index == \E i \in Vs : s[i] # None /\ Do("index " \o X(i), P(s[i][1]), s)
Visit == \E i \in Vs, c \in {"lvalue", "const", "rvalue"} : Do("visit " \o X(i) \o " " \o c, IF s[i] = None THEN "bad_variant_access" ELSE Show(s[i]), s)
VisitSet == \E i \in Vs : s[i] # None /\ Do("visitset " \o X(i), "", [s EXCEPT ![i][2] = IF s[i][2] = 1 THEN 0 ELSE 1])
Order(x, y) == IF x = y THEN "=" ELSE IF x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]) THEN "<" ELSE ">"
Compare == Kind # "plain" /\ \E i \in Vs : Do("cmp " \o X(i), Order(s[i], s[Other(i)]), s)
\* equal variants have equal hashes
Hash == Kind # "plain" /\ s[1] = s[2] /\ Do("hash", "equal", s)
Under == \E i \in Vs : Do("under " \o X(i), IF s[i] = None THEN "none" ELSE P(s[i][1]), s)

Init == s = <<<<1, 0>>, <<1, 0>>>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Next == Default \/ Make \/ AssignValue \/ Emplace \/ EmplaceThrow \/ CopyCtor \/ MoveCtor \/ CopyAssign \/ MoveAssign \/ SelfAssign
        \/ Get \/ Take \/ Set \/ Holds \/ Index \/ Visit \/ VisitSet \/ Compare \/ Hash \/ Under
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
TypeOK == \A i \in Vs : s[i] = None \/ (s[i][1] \in Pos /\ s[i][2] \in V \cup {Gone})
=============================================================================
