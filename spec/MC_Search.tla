------------------------------ MODULE MC_Search ------------------------------
(* All methods of up to K changes on three bells, one call: the touches found are
   true and closed under rotation, and their changes ring distinct rows.      *)
EXTENDS Search
CONSTANTS K
VARIABLES m, done
Chs == {FromSet(3, {}), [n |-> 3, s |-> <<1>>], [n |-> 3, s |-> <<2>>]}
Init == m = <<>> /\ done = FALSE
Next == ~done /\ \/ Len(m) < K /\ (\E c \in Chs : m' = Append(m, c)) /\ done' = FALSE
                 \/ m # <<>> /\ m' = m /\ done' = TRUE
Spec == Init /\ [][Next]_<<m, done>>
Expand(q, calls) == FlattenSeq([i \in 1..Len(q) |-> SubSeq(m, 1, Len(m) - 1) \o <<IF q[i] = 0 THEN m[Len(m)] ELSE calls[q[i]]>>])
Sound == done => \A c \in Chs :
  LET T == Touches(m, <<c>>, {Rounds(3)}, 0, 100, FALSE, TRUE) IN
  /\ \A q \in T : /\ Rotations(q) \subseteq T
                  /\ \A X \in {LeadRows(Expand(q, <<c>>))} : NoRepeats(X)
                  /\ LeadHead(Expand(q, <<c>>)) = Rounds(3)
=============================================================================
