------------------------------ MODULE MC_Method ------------------------------
(* Grows every short sequence of changes a change at a time and checks the laws
   the method vocabulary must obey.                                          *)
EXTENDS Method
CONSTANTS N, K
VARIABLES n, q
vars == <<n, q>>
Init == n \in 2..N /\ q = <<>>
Next == Len(q) < K /\ \E c \in Changes(n) : q' = Append(q, c) /\ n' = n
Spec == Init /\ [][Next]_vars

\* Every spelling reads back as the method it was written for
Crosses == {0, UCROSS, LCROSS, DASH}
Flags == {d + e + s + p : d \in {0, DOTS}, e \in {0, EXTERNAL}, s \in {0, SYMMETRY, SYMMETRY + FULL}, p \in {0, PLUS}}
ReadsBack(f) == LET p == ParsePN(n, Chars(Format(q, f))) IN p.ok /\ p.chs = q
Spelling == /\ \A f \in Flags : ReadsBack(f)
            /\ \A x \in Crosses : ReadsBack(x + SYMMETRY)
            /\ q # <<>> => LET p == ParsePN(n, Chars(Format(q, OMITLH + SYMMETRY))) IN p.ok /\ p.chs = SubSeq(q, 1, Len(q) - 1)
Double2 == q \o [i \in 1..Len(q) |-> ReverseCh(q[i])]
Rotate(k) == [i \in 1..Len(q) |-> q[((i - 1 + k) % Len(q)) + 1]]
Laws == q # <<>> =>
  /\ Len(Mirror(q)) = 2 * Len(q) - 1 /\ PalAbout(Mirror(q), Len(q) - 1)
  /\ IsDouble(Double2)
  /\ IsSym(q) => SymPoint(q) # -1
  /\ RowAfter(q \o q, 2 * Len(q)) = Mul(LeadHead(q), LeadHead(q))
  \* rotating a method conjugates its lead head and keeps its shape
  /\ \A k \in 0..(Len(q) - 1) :
       /\ LeadHead(Rotate(k)) = Conj(LeadHead(q), RowAfter(q, k))
       /\ MaxBlows(Rotate(k)) = MaxBlows(q) /\ Leads(Rotate(k)) = Leads(q)
       /\ (SymPoint(Rotate(k)) = -1) = (SymPoint(q) = -1)
       /\ Cardinality(Hunts(q)) < 2 => MethClass(Rotate(k), 9999) = MethClass(q, 9999)
  /\ LHCode(q) # "z" => IsRegular(q)
  /\ MethClass(q, 9999) = PRINCIPLE => Hunts(q) = {}
=============================================================================
