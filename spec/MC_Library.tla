------------------------------ MODULE MC_Library ------------------------------
(* A method set under any history of additions and clearing: it stays ordered
   and free of duplicates, holds exactly what was added since it was cleared,
   and the lines written for it read back as the same methods.                *)
EXTENDS Library
CONSTANT N, K, D   \* stage, longest method, most methods added
VARIABLES set, added
Meths == UNION {[1..k -> Changes(N)] : k \in 1..K}
Init == set = <<>> /\ added = {}
Add(q) == /\ Cardinality(added) < D /\ set' = Insert(set, [q |-> q, name |-> "M", f |-> NoFacets]) /\ added' = added \cup {q}
Clear == set' = <<>> /\ added' = {}
Next == Clear \/ \E q \in Meths : Add(q)
Spec == Init /\ [][Next]_<<set, added>>
Ordered == \A i \in 1..(Len(set) - 1) : SeqLess(set[i].q, set[i + 1].q)
Exact == {set[i].q : i \in 1..Len(set)} = added /\ Len(set) = Cardinality(added)
RoundTrip == LET xs == Lite([i \in 1..Len(set) |-> StreamLine(set[i], 1, 2)], 0, TRUE, <<>>) IN
             Len(xs) = Len(set) /\ \A i \in 1..Len(xs) : xs[i].b = N /\ xs[i].name = "M" /\ Notn(xs[i]).chs = set[i].q
===============================================================================
