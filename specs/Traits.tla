------------------------------- MODULE Traits -------------------------------
(* Type traits as functions over qualified types, lazy selection of types over all lists of cases, *)
(* forwarding with the category of another type.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCases
VARIABLES s, lab
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Do(op, r) == s' = s /\ lab' = <<op, r>>
T(n) == ToString(n)
B(x) == IF x THEN "T" ELSE "F"

\* a type: const, volatile, reference "", "l", "r"
Q(c, v, r) == [c |-> c, v |-> v, r |-> r]
QTypes == [c : BOOLEAN, v : BOOLEAN, r : {"", "l", "r"}]
Name(t) == (IF t.c THEN "c" ELSE "") \o (IF t.v THEN "v" ELSE "") \o t.r
Arg(t) == IF Name(t) = "" THEN "-" ELSE Name(t)
\* qualifiers do not apply to references
Add(t, c, v) == IF t.r # "" THEN t ELSE [t EXCEPT !.c = @ \/ c, !.v = @ \/ v]
Ref(t, r) == IF r = "" THEN t ELSE [t EXCEPT !.r = IF @ = "l" \/ r = "l" THEN "l" ELSE "r"]
Top(f) == f.r = ""
CopyConst(f, t) == Add(t, Top(f) /\ f.c, FALSE)
CopyVolatile(f, t) == Add(t, FALSE, Top(f) /\ f.v)
CopyCv(f, t) == Add(t, Top(f) /\ f.c, Top(f) /\ f.v)
CopyRef(f, t) == Ref(t, f.r)
CopyCvref(f, t) == Ref(Add(t, f.c, f.v), f.r)
Copies == \E f, t \in QTypes : LET a == " " \o Arg(f) \o " " \o Arg(t) IN
   \/ Do("copy_const" \o a, Arg(CopyConst(f, t))) \/ Do("copy_volatile" \o a, Arg(CopyVolatile(f, t))) \/ Do("copy_cv" \o a, Arg(CopyCv(f, t)))
   \/ Do("copy_reference" \o a, Arg(CopyRef(f, t))) \/ Do("copy_cvref" \o a, Arg(CopyCvref(f, t)))

\* forward_like<T>(u)
Plain == {q \in QTypes : ~q.v}
ForwardLike == \E t \in Plain, u \in BOOLEAN : Do("forward_like " \o Arg(t) \o " " \o B(u), Name(Q(t.c \/ u, FALSE, IF t.r = "l" THEN "l" ELSE "r")) \o " same")

\* types that occupy no space of their own
Zst == \E x \in {<<"empty", "T">>, <<"constempty", "T">>, <<"final", "T">>, <<"lambda", "T">>, <<"derived", "T">>, <<"allocator", "T">>, <<"less", "T">>, <<"void", "F">>, <<"int", "F">>, <<"char", "F">>,
                 <<"array", "F">>, <<"member", "F">>, <<"virtual", "F">>, <<"capturing", "F">>, <<"pointer", "F">>, <<"enum", "F">>, <<"nonmovable", "T">>} : Do("zst " \o x[1], x[2])

\* a function object with one parameter, called in some category with an argument of some category
Args == {"v", "l", "cl", "r"}                      \* int, int &, int const &, int &&
Takes(p, a) == CASE p = "none" -> a = "none" [] p = "val" -> a \in Args [] p = "lref" -> a = "l" [] p = "cref" -> a \in Args [] p = "rref" -> a \in {"v", "r"} [] p = "fwd" -> a \in Args
Calls(k, f) == CASE k = "plain" -> f \in {"v", "l"} [] k = "const" -> TRUE [] k = "lonly" -> f = "l" [] k = "ronly" -> f = "v"
Rets == {"void", "int", "long", "intref", "constref", "mover"}
Strict == \/ \E k \in {"plain", "const", "lonly", "ronly"}, f \in {"v", "l", "cv", "cl"}, p \in {"none", "val", "lref", "cref", "rref", "fwd"}, a \in Args \cup {"none"} :
                Do("strict " \o k \o " " \o f \o " " \o p \o " " \o a, B(Calls(k, f) /\ Takes(p, a)))
          \/ \E w \in Rets, r \in Rets : Do("returns " \o w \o " " \o r, B(w = r))

\* which expressions are moved from
MoveIf == \E x \in {<<"value", "r moved">>, <<"lref", "l kept">>, <<"clref", "cl kept">>, <<"rref", "r moved">>, <<"crref", "cr kept">>} : Do("move_if_value " \o x[1], x[2])

\* lazy selection: providers 1, 2 and P, which must not be looked into
Cases == [b : BOOLEAN, p : {"1", "2", "P"}]
Chosen(q, d) == LET M == {k \in 1..Len(q) : q[k].b} IN IF M = {} THEN d ELSE q[CHOOSE k \in M : \A m \in M : k <= m].p
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN "" ELSE (IF q[1].b THEN "T" ELSE "F") \o q[1].p \o Code(Tail(q))
Lazy == \/ \E c \in BOOLEAN, x, y \in {"1", "2", "P"} : (IF c THEN x ELSE y) # "P" /\ Do("conditional " \o B(c) \o x \o y, IF c THEN x ELSE y)
        \/ \E n \in 0..MaxCases : \E q \in [1..n -> Cases], d \in {"1", "2", "P", "-"} : Chosen(q, d) \notin {"P", "-"} /\ Do("switch " \o d \o Code(q), Chosen(q, d))
Next == Copies \/ ForwardLike \/ Zst \/ Strict \/ MoveIf \/ Lazy
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
