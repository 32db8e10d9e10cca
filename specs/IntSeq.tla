------------------------------- MODULE IntSeq -------------------------------
(* make_integer_sequence, make_index_sequence and make_integral_constant_list for the ranges of  *)
(* Ranges.tla, and long ranges (for 8 bit types: almost the whole type).                *)
EXTENDS Ranges, Json
CONSTANT Is8
VARIABLES s, lab

Do(op, r) == s' = s /\ lab' = <<op, r>>
Whats == {"seq", "list"} \cup (IF Signed THEN {} ELSE {"index"})
Gen == \E i \in 1..Len(Ranges), w \in Whats : Do(w \o " " \o ToString(i), Join(RangeSeq(Ranges[i])))
Min8 == IF Signed THEN -128 ELSE 0
Max8 == Min8 + 255
Far == IF Signed THEN -300 ELSE 0
Wide == IF ~Is8 THEN << <<Far, Far + 600>>, <<Far + 600, Far>>, <<Far + 1, Far + 257>> >> ELSE
        <<<<Min8, Max8>>, <<Max8, Min8>>, <<Min8 + 1, Max8>>, <<Max8 - 1, Min8>>, <<Min8, Min8 + 200>>, <<Max8, Max8 - 129>> >>
Count(r) == IF r[1] <= r[2] THEN [k \in 1..(r[2] - r[1]) |-> ToString(r[1] + k - 1)] ELSE [k \in 1..(r[1] - r[2]) |-> ToString(r[1] - k + 1)]
WideSeq == \E i \in 1..Len(Wide) : Do("wide " \o ToString(i), Join(Count(Wide[i])))
Init == s = 0 /\ lab = <<"init", "">> /\ PrintT("@I" \o ToJson(s))
Next == Gen \/ WideSeq
View == s
Emit == PrintT("@T" \o ToJson(<<s, lab', s'>>))
=============================================================================
