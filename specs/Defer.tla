------------------------------- MODULE Defer -------------------------------
(* Scope guards inside arbitrarily nested blocks, try blocks, catch blocks and guard bodies.     *)
(* The state is the control stack of a program which is written down step by step: every step    *)
(* enters a block, declares a guard, throws, rethrows, or leaves the innermost block. A guard    *)
(* function that runs is itself a frame in which the program continues.                          *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxDepth,    \* frames on the control stack
          MaxGuards,   \* guards declared at the same time
          AllHows      \* every way to create a guard is tried up to this depth
VARIABLES s, lab

\* frame: t  "b" block, "t" try block, "c" catch block, "A" "F" "S" body of a guard of that kind
\*        gs kinds of the guards declared in the frame and not yet finished; "E" is a guard without function
\*        m  "r" running, "n" being left normally, "x" being left by an exception
Frame(t) == [t |-> t, gs |-> <<>>, m |-> "r"]
Kinds == {"A", "F", "S", "E"}
T(x) == ToString(x)
How == <<"ctor", "macro", "rval", "lval">>
Top(st) == st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
SetTop(st, f) == Pop(st) \o <<f>>
Fires(k, m) == k = "A" \/ (k = "F" /\ m = "x") \/ (k = "S" /\ m = "n")

\* leaving the innermost frame, in its mode n or x, up to the next point where the program decides
RECURSIVE Leave(_, _)
Leave(st, obs) ==
  LET f == Top(st) n == Len(f.gs) IN
  IF n > 0
  THEN LET k == f.gs[n] rest == SetTop(st, [f EXCEPT !.gs = SubSeq(@, 1, n - 1)]) IN
       IF Fires(k, f.m) THEN [st |-> rest \o <<Frame(k)>>, o |-> obs \o "run" \o k \o T(Len(st)) \o T(n) \o " "]
       ELSE Leave(rest, obs)
  ELSE LET up == Pop(st) IN
       CASE f.m = "n" /\ f.t \in {"b", "t", "c"} -> [st |-> up, o |-> obs \o "left "]
         [] f.m = "n" /\ f.t \in {"A", "F", "S"} -> Leave(up, obs \o "done ")
         [] f.m = "x" /\ f.t = "t" -> [st |-> up \o <<Frame("c")>>, o |-> obs \o "caught "]
         [] OTHER -> Leave(SetTop(up, [Top(up) EXCEPT !.m = "x"]), obs)

Guards(st) == LET RECURSIVE sum(_) sum(i) == IF i = 0 THEN 0 ELSE Len(st[i].gs) + sum(i - 1) IN sum(Len(st))

\* an exception thrown now is caught by some try block before it reaches a guard function that must not throw
RECURSIVE Caught(_, _)
Caught(st, i) == i > 0 /\ CASE st[i].t = "t" -> st[i].m = "r" \/ Caught(st, i - 1)
                            [] st[i].t \in {"A", "F"} -> FALSE
                            [] OTHER -> Caught(st, i - 1)

Do(op, r) == s' = r.st /\ lab' = <<op, r.o \o T(Len(r.st)) \o (IF r.st = <<>> THEN "" ELSE Top(r.st).t)>>

Init == s = <<>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

Enter == /\ Len(s) < MaxDepth
         /\ \/ Do("block", [st |-> s \o <<Frame("b")>>, o |-> ""])
            \/ Do("try", [st |-> s \o <<Frame("t")>>, o |-> ""])
Guard == /\ s # <<>> /\ Guards(s) < MaxGuards /\ Len(s) < MaxDepth
         /\ \E k \in Kinds, h \in 1..4 :
              /\ k = "E" => (h = 1 /\ Guards(s) = 0)
              /\ (Len(s) <= AllHows \/ h = 1 + ((Len(s) + 2 * Guards(s)) % 4) \/ k = "E")  \* how a guard is made does not matter
              /\ Do("guard " \o k \o " " \o How[h], [st |-> SetTop(s, [Top(s) EXCEPT !.gs = Append(@, k)]), o |-> ""])
Throw == /\ s # <<>> /\ Caught(s, Len(s))
         /\ Do("throw", Leave(SetTop(s, [Top(s) EXCEPT !.m = "x"]), ""))
Rethrow == /\ s # <<>> /\ Top(s).t = "c" /\ Caught(s, Len(s))
           /\ Do("rethrow", Leave(SetTop(s, [Top(s) EXCEPT !.m = "x"]), ""))
\* the different ways to leave a block without an exception
End == s # <<>> /\ \E w \in {"end", "ret"} : (w = "end" \/ Len(s) <= AllHows) /\ Do(w, Leave(SetTop(s, [Top(s) EXCEPT !.m = "n"]), ""))

Next == Enter \/ Guard \/ Throw \/ Rethrow \/ End
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))

TypeOK == \A i \in 1..Len(s) : s[i].t \in {"b", "t", "c", "A", "F", "S"} /\ s[i].m \in {"r", "n", "x"}
\* only the innermost frame runs user code; the frame below a guard body is being left, and a fail guard
\* runs exactly while its scope is left by an exception, a success guard exactly while it is not
PolicyOK == \A i \in 2..Len(s) :
   /\ s[i].t \in {"A", "F", "S"} <=> s[i - 1].m # "r"
   /\ s[i].t = "F" => s[i - 1].m = "x"
   /\ s[i].t = "S" => s[i - 1].m = "n"
RunningOnTop == s # <<>> => Top(s).m = "r"
=============================================================================
