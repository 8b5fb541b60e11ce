------------------------------ MODULE MC_False ------------------------------
(* Small methods changed change by change: the table contains exactly the lead
   heads whose lead shares a row with the plain lead.                         *)
EXTENDS Falseness
CONSTANTS N, K
VARIABLES q
vars == <<q>>
Init == \E n \in 2..N : \E c \in Changes(n) : q = <<c>>
Next == Len(q) < K /\ \E c \in Changes(q[1].n) : q' = Append(q, c)
Spec == Init /\ [][Next]_vars
Laws ==
  LET v == LeadRows(q) n == q[1].n P == Range(v) IN
  /\ FalseHeads(v, v, 2) = {f \in Rows(n) : {Mul(f, x) : x \in P} \cap P # {}}
  /\ FalseHeads(v, v, 0) = {f \in FalseHeads(v, v, 2) : f[1] = 1}
  /\ FalseHeads(v, v, 3) \cup FalseHeads(v, v, 10) = FalseHeads(v, v, 2)
  /\ FalseHeads(v, v, 11) = {}
  /\ \A f \in FalseHeads(v, v, 2) : Inv(f) \in FalseHeads(v, v, 2)
  /\ IsGroup(FalseGroup(v, 2))
  \* on eight bells the published names are exactly the classes under lead heads and reversal
  /\ (q = <<[n |-> 2, s |-> <<>>]>> => /\ NamesKnown
        /\ \A i \in 1..Len(Names) : Lookups(Pad(Names[i][1], 8)) = {SubSeq(Names[i][2], 1, 1)})
=============================================================================
