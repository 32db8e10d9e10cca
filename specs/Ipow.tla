-------------------------------- MODULE Ipow --------------------------------
(* Exact integer powers, computed with numbers of unlimited size (a sign and digits in base      *)
(* 1000, least significant first), and what ipow has to answer for a result type of W bits.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS W, Signed,   \* result type
          ExpSigned,   \* exponent type
          All,         \* every base (8 bit types)
          EBits        \* > 0: only exponents near powers of two that an exponent type of so many value bits can hold
VARIABLES s, lab

B == 1000
RECURSIVE FromN(_), AddM(_, _, _), MulD(_, _, _), MulM(_, _), CmpM(_, _), SubM(_, _, _), Strip(_)
FromN(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromN(n \div B)
D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
AddM(a, x, c) == IF a = <<>> /\ x = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>>
                 ELSE LET t == D(a, 1) + D(x, 1) + c IN
                      <<t % B>> \o AddM(IF a = <<>> THEN a ELSE Tail(a), IF x = <<>> THEN x ELSE Tail(x), t \div B)
MulD(a, d, c) == IF a = <<>> THEN IF c = 0 THEN <<>> ELSE FromN(c)
                 ELSE LET t == a[1] * d + c IN <<t % B>> \o MulD(Tail(a), d, t \div B)
Strip(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
MulM(a, x) == IF x = <<>> THEN <<>> ELSE Strip(AddM(MulD(a, x[1], 0), <<0>> \o MulM(a, Tail(x)), 0))
\* -1, 0, 1
CmpM(a, x) == IF Len(a) # Len(x) THEN IF Len(a) < Len(x) THEN -1 ELSE 1
              ELSE IF a = <<>> THEN 0
              ELSE LET n == Len(a) IN IF a[n] # x[n] THEN IF a[n] < x[n] THEN -1 ELSE 1
                                      ELSE CmpM(SubSeq(a, 1, n - 1), SubSeq(x, 1, n - 1))
SubM(a, x, c) == IF a = <<>> THEN <<>>   \* a >= x
                 ELSE LET t == a[1] - D(x, 1) - c IN
                      <<IF t < 0 THEN t + B ELSE t>> \o SubM(Tail(a), IF x = <<>> THEN x ELSE Tail(x), IF t < 0 THEN 1 ELSE 0)
Num(n) == [neg |-> n < 0, m |-> FromN(IF n < 0 THEN -n ELSE n)]
AddS(a, n) == LET k == FromN(IF n < 0 THEN -n ELSE n) IN   \* a of either sign, n a small number
   IF a.neg = (n < 0) THEN [neg |-> a.neg, m |-> AddM(a.m, k, 0)]
   ELSE IF CmpM(a.m, k) >= 0 THEN LET r == Strip(SubM(a.m, k, 0)) IN [neg |-> a.neg /\ r # <<>>, m |-> r]
   ELSE [neg |-> ~a.neg, m |-> Strip(SubM(k, a.m, 0))]
Neg(a) == [neg |-> ~a.neg /\ a.m # <<>>, m |-> a.m]

Pad(d) == IF d < 10 THEN "00" \o ToString(d) ELSE IF d < 100 THEN "0" \o ToString(d) ELSE ToString(d)
RECURSIVE ShowM(_)
ShowM(a) == IF Len(a) = 1 THEN ToString(a[1]) ELSE ShowM(SubSeq(a, 2, Len(a))) \o Pad(a[1])
Show(a) == IF a.m = <<>> THEN "0" ELSE (IF a.neg THEN "-" ELSE "") \o ShowM(a.m)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN FromN(1) ELSE MulD(Pow2(k - 1), 2, 0)
MaxM == SubM(Pow2(IF Signed THEN W - 1 ELSE W), FromN(1), 0)    \* magnitude of the largest and of the smallest value
MinM == IF Signed THEN Pow2(W - 1) ELSE <<>>
Maxv == Strip(MaxM)
Too(a) == IF a.neg THEN CmpM(a.m, MinM) = 1 ELSE CmpM(a.m, Maxv) = 1
MaxBoth == IF Signed THEN MinM ELSE Maxv
TooBoth(m) == CmpM(m, MaxBoth) = 1

\* magnitude of base^e, or any magnitude that is too large for the type (then the rest of the product does not matter)
RECURSIVE PowM(_, _)
PowM(m, e) == IF e = 0 THEN FromN(1)
              ELSE LET p == PowM(m, e - 1) IN IF TooBoth(p) THEN p ELSE MulM(p, m)
Odd(e) == e % 2 = 1
\* the exponent is the number e or (w) an extreme value of its type
Answer(a, w, e) ==
  LET big == w # ""
      negative == IF big THEN w = "min" ELSE e < 0
      odd == IF big THEN w = "max" ELSE Odd(IF e < 0 THEN -e ELSE e)
      m == IF big THEN IF a.m = <<>> THEN <<>> ELSE IF a.m = <<1>> THEN <<1>> ELSE MulM(Maxv, <<2>>) ELSE IF negative THEN <<>> ELSE PowM(a.m, e)
      r == [neg |-> a.neg /\ odd /\ m # <<>>, m |-> m] IN
  IF negative THEN IF a.m = <<1>> THEN IF a.neg /\ odd THEN "-1" ELSE "1" ELSE "0"
  ELSE IF Too(r) THEN IF r.neg THEN "underflow_error" ELSE "overflow_error" ELSE Show(r)

\* ----- which bases and exponents
RECURSIVE RootBits(_, _, _)
\* the largest r with r^e <= the maximum, bit by bit
RootBits(r, i, e) == IF i < 0 THEN r
                     ELSE LET t == AddM(r, Pow2(i), 0) IN RootBits(IF CmpM(PowM(t, e), Maxv) <= 0 THEN t ELSE r, i - 1, e)
Bits == IF Signed THEN W - 1 ELSE W
Root(e) == RootBits(<<>>, Bits \div e, e)
Roots == [e \in 1..Bits |-> Root(e)]
InType(a) == ~Too(a)
Signs(S) == IF Signed THEN S \cup {Neg(a) : a \in S} ELSE S
Near(m) == {AddS([neg |-> FALSE, m |-> m], d) : d \in -2..2}
Small == {Num(n) : n \in 0..16}
Limit == Near(Maxv) \cup Near(IF Signed THEN Pow2(W - 2) ELSE Pow2(W - 1))
Bases(S) == {a \in Signs(S) : InType(a)}

Do(op, r) == s' = s /\ lab' = <<op, r>>
P(a, e) == Do("ipow " \o Show(a) \o " " \o ToString(e), Answer(a, "", e))
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
NegExps == IF ExpSigned THEN {-1, -2, -3, -64} ELSE {}
SmallPowers == \E a \in Bases(IF All THEN {Num(n) : n \in 0..255} ELSE Small), e \in (0..(IF All THEN 9 ELSE 67)) \cup NegExps : P(a, e)
HugePowers == \E a \in Bases(Small \cup Limit), w \in {"max", "max-1", "min"} : (w = "min" => ExpSigned) /\ Do("ipow " \o Show(a) \o " " \o w, Answer(a, w, 0))
Limits == \E a \in Bases(Limit), e \in {0, 1, 2, 3} \cup NegExps : P(a, e)
AtRoots == \E e \in 1..Bits : \E a \in Bases(Near(Roots[e])), d \in {-1, 0, 1} : e + d >= 0 /\ P(a, e + d)
\* exponents 2^k - 1, 2^k, 2^k + 1 with k >= 7, of either sign: for |base| >= 2 the power exceeds every type of up to 64 bits
Far(a, neg, odd) ==
  LET m == IF a.m \in {<<>>, <<1>>} THEN a.m ELSE MulM(Maxv, <<2>>)
      r == [neg |-> a.neg /\ odd /\ m # <<>>, m |-> m] IN
  IF neg THEN IF a.m = <<1>> THEN Show(r) ELSE "0"
  ELSE IF Too(r) THEN IF r.neg THEN "underflow_error" ELSE "overflow_error" ELSE Show(r)
FarPowers == \E a \in Bases({Num(n) : n \in 0..3} \cup Limit), k \in 7..(EBits - 1), d \in -1..1, neg \in (IF ExpSigned THEN BOOLEAN ELSE {FALSE}) :
  Do("ipow " \o Show(a) \o " " \o (IF neg THEN "-" ELSE "") \o "2^" \o ToString(k) \o (IF d < 0 THEN "-1" ELSE "+" \o ToString(d)), Far(a, neg, d # 0))
Next == IF EBits > 0 THEN FarPowers ELSE SmallPowers \/ HugePowers \/ Limits \/ AtRoots
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
RootOK == \A e \in 1..Bits : CmpM(PowM(Roots[e], e), Maxv) <= 0 /\ CmpM(PowM(AddM(Roots[e], <<1>>, 0), e), Maxv) = 1
=============================================================================
