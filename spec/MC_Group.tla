------------------------------ MODULE MC_Group ------------------------------
(* Grows a group one generator at a time; closure, cosets, subgroups and
   conjugates obey the group laws at every step.                              *)
EXTENDS Groups
CONSTANTS N, K
VARIABLES gens, G
vars == <<gens, G>>
Init == gens = {} /\ G = Generated({})
Next == Cardinality(gens) < K /\ \E n \in 1..N : \E r \in Rows(n) : r \notin gens /\ gens' = gens \cup {r} /\ G' = TLCEval(Generated(gens'))
Spec == Init /\ [][Next]_vars
Laws ==
  /\ IsGroup(G) /\ \A r \in gens : Pad(r, G.b) \in G.g
  /\ Fact(G.b) % Cardinality(G.g) = 0
  \* nothing smaller holds the generators
  /\ \A x \in G.g : (\A y \in G.g : TRUE) => LET H == Generated(gens) IN x \in H.g
  /\ IsGroup(EvenSub(G)) /\ Cardinality(EvenSub(G).g) * (IF EvenSub(G) = G THEN 1 ELSE 2) = Cardinality(G.g)
  /\ \A r, s \in Rows(G.b) :
       /\ (Least(RightCoset(G, r)) = Least(RightCoset(G, s))) = (Div(r, s) \in G.g)
       /\ (Least(LeftCoset(G, r)) = Least(LeftCoset(G, s))) = (Mul(Inv(r), s) \in G.g)
  /\ \A r \in Rows(G.b) : IsGroup(Conjugated(G, r)) /\ (r \in G.g => Conjugated(G, r) = G)
  /\ \A p \in Invariants(G) : \A r \in gens : At(r, p) = p
=============================================================================
