------------------------------ MODULE Throwing ------------------------------
(* Exceptions that user code throws (elements, functions, predicates, allocators, iterators) while *)
(* the library runs it. Whatever operation is running, the exception reaches the caller: the        *)
(* program goes on, no other user code is called on behalf of that operation in between, everything *)
(* that the operation made is destroyed, and the operation can be repeated.                         *)
(* A run of an operation is the word of the calls it makes: r returns, t throws.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Prop       \* the property whose operations are looked at
VARIABLES s, lab
\* operations with the number of calls of user code they make; 0: not specified (at least one)
Table == [C09 |-> {<<"foreign", 1>>, <<"foreignconstruct", 1>>},
          C11 |-> {<<"foreign", 1>>, <<"foreignoffset", 1>>},
          C13 |-> {<<"visit", 1>>, <<"visitvoid", 1>>, <<"eq", 1>>, <<"ne", 1>>, <<"order", 1>>, <<"less", 1>>, <<"format", 0>>},
          C17 |-> {<<op \o "-" \o m, 0>> : op \in {"copy", "assign", "eq", "ne", "order", "less", "swap", "list", "iterators"}, m \in {"static", "limited", "dynamic"}}
                  \cup {<<"todynamic-" \o m, 0>> : m \in {"limited", "dynamic"}} \cup {<<"tostatic", 0>>},
          C19 |-> {<<op, 0>> : op \in {"begin", "walk", "postfix", "peek", "reverse", "nth", "front", "back", "index", "viewwalk"}},
          C20 |-> {<<op, 0>> : op \in {"make", "walk", "copy", "default"}},
          C21 |-> {<<op, 0>> : op \in {"all_equal", "all_distinct", "all_distinct_sorted", "is_sorted_unique", "remove_element", "unique", "lex", "pipe", "element", "hash", "projection", "iterator"}},
          C22 |-> {<<op, 0>> : op \in {"min", "max", "compare"}},
          C25 |-> {<<"for_types", 3>>, <<"for_values", 3>>, <<"for_range", 4>>, <<"for_rangedown", 3>>, <<"switch", 1>>, <<"switchfallback", 1>>, <<"switchupto", 1>>, <<"switchnofallback", 1>>, <<"bool", 1>>},
          C26 |-> {<<"make", 3>>, <<"copy", 3>>, <<"move", 3>>, <<"assign", 3>>, <<"eq", 3>>, <<"order", 3>>, <<"vmake", 1>>, <<"vcopy", 1>>, <<"vassign", 0>>, <<"veq", 1>>, <<"vorder", 1>>, <<"vvisit", 1>>},
          C27 |-> {<<"make", 3>>, <<"copy", 3>>, <<"move", 3>>, <<"assign", 3>>, <<"moveassign", 3>>, <<"eq", 3>>, <<"order", 3>>, <<"for_each", 3>>, <<"type_for_each", 3>>, <<"fold", 3>>, <<"type_fold", 3>>},
          C28 |-> {<<"format", 0>>, <<"format_to", 0>>, <<"width", 0>>, <<"iterator", 0>>, <<"parse", 0>>},
          C29 |-> {<<"for_each", 3>>, <<"fold", 3>>},
          C31 |-> {<<"overloaded", 1>>, <<"match", 1>>, <<"bindcall", 1>>, <<"bindmake", 2>>, <<"bindcopy", 2>>, <<"memfn", 1>>, <<"dbg", 1>>, <<"dbgformat", 0>>}]
Ops == Table[Prop]
\* operations that must not claim that they never throw, if the user code that they run may throw
Claims == [C13 |-> {"eq", "order", "visit", "copy", "move", "assign", "emplace"},
           C17 |-> {op \o "-" \o m : op \in {"eq", "order", "copy", "assign"}, m \in {"static", "limited", "dynamic"}} \cup {"move-static", "swap-static", "todynamic", "tostatic"},
           C25 |-> {"for_types", "for_values", "for_range", "switch", "bool"},
           C26 |-> {"eq", "order", "copy", "move", "veq", "vorder", "vcopy", "vmove", "vassign", "vmake", "vvisit"},
           C27 |-> {"eq", "order", "copy", "move", "assign", "for_each", "fold", "type_fold"},
           C31 |-> {"overloaded", "match", "bindcall", "bindcopy"}]
Init == s = <<>> /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
RECURSIVE Rs(_)
Rs(n) == IF n = 0 THEN "" ELSE "r" \o Rs(n - 1)
\* all runs of an operation that makes n calls: all return, or one throws and is the last
Runs(n) == {Rs(n)} \cup {Rs(k) \o "t" : k \in 0..(n - 1)}
Result(w) == IF w \in {Rs(n) : n \in 0..9} THEN "returned" ELSE "thrown to the caller"
Claim == /\ s = <<>> /\ s' = s /\ Prop \in DOMAIN Claims
         /\ \E o \in Claims[Prop] : lab' = <<"claim " \o o, "may throw">>
Run == /\ s = <<>> /\ s' = s
        /\ \E o \in Ops :
             IF o[2] > 0
             THEN \E w \in Runs(o[2]) : lab' = <<o[1] \o " " \o w, Result(w)>>
             ELSE \E w \in {"every", "none"} : lab' = <<o[1] \o " " \o w, IF w = "none" THEN "returned" ELSE "thrown to the caller">>  \* every: each call of the run in turn
Next == Run \/ Claim
View == s
OneEnd == \A o \in Ops : Cardinality(Runs(o[2])) = o[2] + 1
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
