------------------------------ MODULE MC_Music ------------------------------
(* Every pattern of up to K marks on N bells: counting by automaton agrees with
   enumeration, and so does the closed formula.                               *)
EXTENDS Music
CONSTANTS N, K
VARIABLES p, done
Sets == {S \in SUBSET (1..N) : TRUE}
Toks == {[k |-> "any", s |-> {}], [k |-> "star", s |-> {}]} \cup {[k |-> "set", s |-> S] : S \in Sets}
Init == p = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \/ Len(p) < K /\ \E t \in Toks : p' = Append(p, t) /\ done' = FALSE
           \/ p' = p /\ done' = TRUE
Spec == Init /\ [][Next]_<<p, done>>
Counting == done =>
  LET c == Cardinality({r \in Rows(N) : Matches(p, r)}) IN
  /\ CountFrom(p, HasStar(p), Closure(p, {1}), 1..N) = c
  /\ Simple(p) => CountSimple(p, N) = c
  /\ \A r \in Rows(N) : Matches(p, r) <=> Wilds(p, r) # {}
=============================================================================
