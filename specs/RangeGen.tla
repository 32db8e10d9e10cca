------------------------------ MODULE RangeGen ------------------------------
(* range(start, stop, step) for integral types of any width. Numbers are written a*Q + o, where  *)
(* Q is a quarter of the number of values of the type (2^(w-2)) and o is small, so the same      *)
(* histories describe 8, 16, 32 and 64 bit types including everything next to their limits:      *)
(* a signed type has the values -2Q .. 2Q-1, an unsigned one 0 .. 4Q-1.                           *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Signed,      \* the value type is signed
          StepKind,    \* the step type: "s" signed, "u" unsigned of the same width, "w" wider and signed,
                       \* "n" narrower and signed (only steps next to 0)
          Rich         \* more anchors and offsets
VARIABLES s, lab

T(x) == ToString(x)
StepMin == CASE StepKind = "w" -> -4 [] StepKind = "u" -> 0 [] OTHER -> -2
StepMax == CASE StepKind = "w" -> 5 [] StepKind = "u" -> 4 [] OTHER -> 2
SmallStep == StepKind = "n"
As == IF Signed THEN IF Rich THEN -2..2 ELSE {-2, 0, 2} ELSE IF Rich THEN 0..4 ELSE {0, 2, 4}
Os == IF Rich THEN -3..3 ELSE -2..1
N(x) == T(x.a) \o ":" \o T(x.o)
Add(x, y) == [a |-> x.a + y.a, o |-> x.o + y.o]
Neg(x) == [a |-> -x.a, o |-> -x.o]
Sub(x, y) == Add(x, Neg(y))
Lt(x, y) == x.a < y.a \/ (x.a = y.a /\ x.o < y.o)
Le(x, y) == ~Lt(y, x)
Zero == [a |-> 0, o |-> 0]
Pos(x) == Lt(Zero, x)
MinV == IF Signed THEN -2 ELSE 0
MaxV == IF Signed THEN 2 ELSE 4
Fits(x, lo, hi) == Le([a |-> lo, o |-> 0], x) /\ Lt(x, [a |-> hi, o |-> 0])
Values == {x \in [a : As, o : Os] : Fits(x, MinV, MaxV)}
Steps == {x \in [a : IF SmallStep THEN {0} ELSE -4..4, o : -3..3] : x # Zero /\ Fits(x, StepMin, StepMax)}

\* the definition: start, start+step, ... as long as the value is before stop
Before(x, stop, step) == IF Pos(step) THEN Lt(x, stop) ELSE Lt(stop, x)
RECURSIVE Seq_(_, _, _, _)
Seq_(x, stop, step, k) == IF k = 0 \/ ~Before(x, stop, step) THEN <<>> ELSE <<x>> \o Seq_(Add(x, step), stop, step, k - 1)
Max == 8
Elements(start, stop, step) == Seq_(start, stop, step, Max + 1)

Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE N(Head(q)) \o "," \o Show(Tail(q))
Drop(q, k) == SubSeq(q, k + 1, Len(q))
RECURSIVE Drops(_, _)
Drops(q, k) == IF k > 3 \/ k > Len(q) + 1 THEN "" ELSE ">" \o Show(Drop(q, k)) \o Drops(q, k + 1)
\* everything said about a sequence: length, forward, backward, dropping elements at the front and (reversed) at the back
About(q) == T(Len(q)) \o " " \o Show(q) \o " " \o Show(Rev(q)) \o " " \o Drops(q, 0) \o " " \o Drops(Rev(q), 0)

Do(op, r) == s' = s /\ lab' = <<op, r>>
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

Short == \E x, y \in Values, st \in Steps : LET q == Elements(x, y, st) IN
  Len(q) <= Max /\ Do("range " \o N(x) \o " " \o N(y) \o " " \o N(st), About(q))
Default == \E x, y \in Values : LET q == Elements(x, y, [a |-> 0, o |-> 1]) IN
  \/ Len(q) <= Max /\ Do("range2 " \o N(x) \o " " \o N(y), About(q))
  \/ x = Zero /\ Len(q) <= Max /\ Do("range1 " \o N(y), About(q))
ZeroStep == \E x, y \in Values : Do("zero " \o N(x) \o " " \o N(y), "invalid_argument")

\* ranges with too many elements to write down: the length, the first and the last elements, for steps 1, 2, -1, -2
\* a distance d is divided by 1 or 2 (then with an even anchor)
Halve(x) == [a |-> x.a \div 2, o |-> (x.o + 1) \div 2]
Long == \E x, y \in Values, k \in {1, 2}, up \in {TRUE, FALSE} :
  LET d == IF up THEN Sub(y, x) ELSE Sub(x, y)
      n == IF k = 1 THEN d ELSE Halve(d)
      st == [a |-> 0, o |-> IF up THEN k ELSE -k]
      At(i) == Add(x, [a |-> st.o * i.a, o |-> st.o * i.o])
      Last(i) == At(Sub(n, [a |-> 0, o |-> i]))
      Nth(i) == At([a |-> 0, o |-> i]) IN
  /\ d.a > 0 /\ (k = 2 => d.a % 2 = 0)
  /\ Fits(st, StepMin, StepMax)
  /\ Do("long " \o N(x) \o " " \o N(y) \o " " \o N(st),
        N(n) \o " " \o Show(<<Nth(0), Nth(1), Nth(2)>>) \o " " \o Show(<<Last(1), Last(2), Last(3)>>)
             \o " " \o Show(<<Nth(5), Nth(6)>>) \o " " \o Show(<<Last(6), Last(7)>>))

Next == Short \/ Default \/ ZeroStep \/ Long
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
\* elements never pass stop and are strictly monotonic (checked on every range that is generated)
NeverPasses == \A x, y \in {v \in Values : v.o \in {0, -1}}, st \in {t \in Steps : t.o \in {-1, 1}} : LET q == Elements(x, y, st) IN
  \A i \in 1..Len(q) : Before(q[i], y, st) /\ Fits(q[i], MinV, MaxV)
=============================================================================
