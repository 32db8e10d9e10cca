------------------------------- MODULE TagPair -------------------------------
(* pointer_tag_pair: three variables holding a pointer and a tag. Pointers are names of objects. *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Tags, Hows    \* tags used; ways to construct a pair from a pointer and a tag
VARIABLES s, lab
K == 1..3
Ptrs == {"null", "p", "q"}
T(x) == ToString(x)
Show(x) == x.p \o "/" \o T(x.t)
EqShow(t) == (IF t[1] = t[2] THEN "=" ELSE "#") \o (IF t[2] = t[3] THEN "=" ELSE "#") \o (IF t[1] = t[3] THEN "=" ELSE "#")
Do(op, t) == s' = t /\ lab' = <<op, Show(t[1]) \o " " \o Show(t[2]) \o " " \o Show(t[3]) \o " " \o EqShow(t)>>
Null == [p |-> "null", t |-> 0]
Init == s = <<Null, Null, Null>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Next == \/ \E k \in K, p \in Ptrs, t \in Tags, h \in Hows : (k = 1 \/ h = CHOOSE x \in Hows : TRUE) /\
             Do("new " \o T(k) \o " " \o p \o " " \o T(t) \o " " \o h, [s EXCEPT ![k] = [p |-> p, t |-> t]])
        \/ \E t \in Tags : Do("nul 1 " \o T(t), [s EXCEPT ![1] = [p |-> "null", t |-> t]])
        \/ \E k \in K : Do("def " \o T(k), [s EXCEPT ![k] = Null])
        \/ \E k, j \in K :
             \/ k # j /\ \E how \in {"copy", "asg", "move", "tagged"} : Do(how \o " " \o T(k) \o " " \o T(j), [s EXCEPT ![k] = s[j]])
             \/ k <= j /\ Do("swap " \o T(k) \o " " \o T(j), [s EXCEPT ![k] = s[j], ![j] = s[k]])
             \/ k < j /\ Do("stdswap " \o T(k) \o " " \o T(j), [s EXCEPT ![k] = s[j], ![j] = s[k]])
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
TypeOK == \A k \in K : s[k].p \in Ptrs /\ s[k].t \in Tags \cup {0}
=============================================================================
