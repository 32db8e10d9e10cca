------------------------------ MODULE LimitSeq ------------------------------
(* Sequential limit_allocator: handles (allocator objects, also rebound ones) share budgets.    *)
(* s.h[k]: budget group of handle k; s.left[g]: bytes left; s.b[i]: live block <<group, bytes,   *)
(* element size>> or <<0,0,0>>. Every operation reports its result.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Limits,   \* byte limits used for fresh allocators
          Hs, Gs, Sizes,
          Units       \* sizes are in units so large that nothing is really allocated

VARIABLES s, lab

Bs == 1..2
Max == CHOOSE m \in Limits : \A x \in Limits : x <= m
NoBlock == <<0, 0, 0>>
L0 == CHOOSE m \in Limits : \A x \in Limits : x >= m
T(x) == ToString(x)

\* groups nobody refers to any more are reset, so that equal situations are equal states
Used(h, b) == {h[k] : k \in Hs} \cup {b[i][1] : i \in Bs}
Norm(t) == [t EXCEPT !.left = [g \in Gs |-> IF g \in Used(t.h, t.b) THEN t.left[g] ELSE 0]]
Do(op, r, t) == s' = Norm(t) /\ lab' = <<op, r>>

Init == /\ s = Norm([h |-> [k \in Hs |-> 1], left |-> [g \in Gs |-> IF g = 1 THEN L0 ELSE 0], b |-> [i \in Bs |-> NoBlock]])
        /\ lab = <<"init", "">>
        /\ PrintT("@I" \o ToJson(s))

New == \E k \in Hs, lim \in Limits, form \in {"", "u", "m", "i"} :
         LET free == Gs \ Used([s.h EXCEPT ![k] = 0], s.b)  IN
         /\ free # {}
         /\ LET g == CHOOSE x \in free : \A y \in free : x <= y IN
            Do("new" \o form \o " " \o T(k) \o " " \o T(lim), "ok", [s EXCEPT !.h[k] = g, !.left[g] = lim])
Derive == \E k, j \in Hs, op \in {"copy", "move", "asg", "masg", "reb", "rebm", "soccc"} :
            /\ k # j
            /\ Do(op \o " " \o T(k) \o " " \o T(j), "ok", [s EXCEPT !.h[k] = s.h[j]])
Swap == \E k, j \in Hs : k < j /\ Do("swap " \o T(k) \o " " \o T(j), "ok", [s EXCEPT !.h[k] = s.h[j], !.h[j] = s.h[k]])
Eq == \E k, j \in Hs : Do("eq " \o T(k) \o " " \o T(j), IF s.h[k] = s.h[j] THEN "T" ELSE "F", s)

Alloc == \E k \in Hs, i \in Bs, n \in Sizes, sz \in {1, 4} :
  LET g == s.h[k]  o == " " \o T(k) \o " " \o T(i) \o " " \o T(n) \o " " \o T(sz) IN
  /\ s.b[i] = NoBlock /\ (\A j \in 1..(i-1) : s.b[j] # NoBlock) /\ n * sz <= Max + 4
  /\ IF n * sz <= s.left[g]
     THEN \/ Do("al" \o o, "ok", [s EXCEPT !.left[g] = @ - n * sz, !.b[i] = <<g, n * sz, sz>>])
          \/ Do("alf" \o o, "upstream", s)
     ELSE Do("al" \o o, "limit", s) \/ Do("alf" \o o, "limit", s)
Huge == \E k \in Hs : Do("huge " \o T(k), "fail", s)
Dealloc == \E k \in Hs, i \in Bs : /\ s.b[i] # NoBlock /\ s.b[i][1] = s.h[k]
             /\ Do("de " \o T(k) \o " " \o T(i), "ok", [s EXCEPT !.left[s.h[k]] = @ + s.b[i][2], !.b[i] = NoBlock])
\* a vector that grows and shrinks with the allocator; needs n bytes at once
Vec == ~Units /\ \E k \in Hs, n \in {1, 3, Max, Max + 1} :
         Do("vec " \o T(k) \o " " \o T(n), IF n <= s.left[s.h[k]] THEN "ok" ELSE "limit", s)

Next == New \/ Derive \/ Swap \/ Eq \/ Alloc \/ Huge \/ Dealloc \/ Vec
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))

Live(g) == LET S == {i \in Bs : s.b[i][1] = g} IN
           IF S = {} THEN 0 ELSE IF Cardinality(S) = 1 THEN s.b[CHOOSE i \in S : TRUE][2] ELSE s.b[1][2] + s.b[2][2]
WithinLimit == \A g \in Gs : g \in Used(s.h, s.b) => \E lim \in Limits : s.left[g] + Live(g) = lim
=============================================================================
