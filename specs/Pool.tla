-------------------------------- MODULE Pool --------------------------------
(* pool_allocator: handles refer to pools; live blocks belong to a pool and are either served    *)
(* from the arena of the first bucket they fit in or directly by operator new.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Buckets,    \* bucket sizes in bytes
          Sizes,      \* block sizes explored, in bytes
          NH, NB      \* number of handles and of block slots

VARIABLES s, lab      \* s.h: handle -> pool id; s.b: slot -> block or none

H == 1..NH
B == 1..NB
Ids == 1..2
T(x) == ToString(x)
None == [p |-> 0, n |-> 0]
Where(n) == IF \E b \in Buckets : n <= b THEN "pool" \o T(CHOOSE b \in Buckets : n <= b /\ \A c \in Buckets : n <= c => b <= c) ELSE "new"
Forms(n) == {"char", "raw"} \cup (IF n % 8 = 0 THEN {"long"} ELSE {}) \cup (IF n % 4 = 0 THEN {"int"} ELSE {})
UsedByBlocks(i) == \E k \in B : s.b[k].p = i
UsedByHandles(i, but) == \E h \in H \ {but} : s.h[h] = i
Droppable(h) == UsedByHandles(s.h[h], h) \/ ~UsedByBlocks(s.h[h])

Do(op, obs, t) == s' = t /\ lab' = <<op, obs>>
Init == /\ s = [h |-> [x \in H |-> 1], b |-> [x \in B |-> None]]
        /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))

Alloc == \E k \in B, h \in H, n \in Sizes : \E f \in Forms(n) :
           s.b[k] = None /\ Do("alloc " \o T(k) \o " " \o T(h) \o " " \o f \o " " \o T(n), Where(n), [s EXCEPT !.b[k] = [p |-> s.h[h], n |-> n]])
\* through any handle of the same pool
Free == \E k \in B, h \in H : s.b[k] # None /\ s.b[k].p = s.h[h] /\ \E f \in Forms(s.b[k].n) :
           Do("free " \o T(k) \o " " \o T(h) \o " " \o f \o " " \o T(s.b[k].n), "ok", [s EXCEPT !.b[k] = None])
\* many blocks at once, then all of them freed (in allocation order or reversed)
Bulk == \E h \in H, n \in Sizes, o \in {"fwd", "rev", "mix"} \cup (IF \A k \in B : s.b[k] = None THEN {"many"} ELSE {}) : Do("bulk " \o T(h) \o " " \o T(n) \o " " \o o, Where(n), s)
\* the upstream memory is exhausted: nothing changes. A bucket may still have room.
Exhausted == \E h \in H, n \in Sizes : Do("try! " \o T(h) \o " " \o T(n), IF Where(n) = "new" THEN "bad_alloc" ELSE "consistent", s)
\* a byte size that is not representable, or that no machine has
TooMuch == \E h \in H, f \in {"char", "int", "long", "big"}, w \in {"wrap0", "wrap1", "wrapmax", "max"} :
             (f = "char" => w = "max") /\ Do("huge " \o T(h) \o " " \o f \o " " \o w, "bad_alloc", s)
\* more bytes than 32 bits can count
Large == \E h \in H, f \in {"char", "int", "long", "big"}, w \in {"exact", "some"} : Do("large " \o T(h) \o " " \o f \o " " \o w, "new", s)
\* handles
Fresh == \E h \in H : Droppable(h) /\ \E i \in Ids :
           /\ ~UsedByBlocks(i) /\ ~UsedByHandles(i, h) /\ (\A j \in Ids : j < i => UsedByBlocks(j) \/ UsedByHandles(j, h))
           /\ Do("fresh " \o T(h), "ok", [s EXCEPT !.h[h] = i])
CopyForms == {"copy", "move", "asg", "masg", "soccc", "rebind", "rebindmove", "under", "vcopy", "vmove", "vasg", "vmasg", "vswap", "shared"}
Copy == \E h, g \in H, f \in CopyForms : h # g /\ Droppable(h) /\ Do(f \o " " \o T(h) \o " " \o T(g), "ok", [s EXCEPT !.h[h] = s.h[g]])
Swap == \E h, g \in H : h < g /\ Do("swap " \o T(h) \o " " \o T(g), "ok", [s EXCEPT !.h[h] = s.h[g], !.h[g] = s.h[h]])
Equal == \E h, g \in H : Do("eq " \o T(h) \o " " \o T(g), IF s.h[h] = s.h[g] THEN "T" ELSE "F", s)
\* a container living in the pool next to the blocks
Containers == \E h \in H : Do("map " \o T(h), "ok", s)

Next == Alloc \/ Free \/ Bulk \/ Exhausted \/ TooMuch \/ Large \/ Fresh \/ Copy \/ Swap \/ Equal \/ Containers
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
TypeOK == /\ \A h \in H : s.h[h] \in Ids
          /\ \A k \in B : s.b[k] = None \/ (s.b[k].n \in Sizes /\ s.b[k].p \in Ids)
NoOrphans == \A k \in B : s.b[k] # None => \E h \in H : s.h[h] = s.b[k].p
=============================================================================
