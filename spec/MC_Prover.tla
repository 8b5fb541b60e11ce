------------------------------ MODULE MC_Prover ------------------------------
(* Every history of up to K operations over a few rows; the verdict, counts and
   report satisfy the property, and removing undoes adding.  Each history can be
   printed for replay in the real prover.                                     *)
EXTENDS Prover, Json
CONSTANTS NR, K, Emit
MaxOcc == {-1, 0, 1, 2}
VARIABLES lv, hist, hasfi
vars == <<lv, hist, hasfi>>
RR == {<<1, 2, 3>>, <<2, 1, 3>>, <<1, 3, 2>>}
MyRows == CHOOSE S \in SUBSET RR : Cardinality(S) = NR /\ <<1, 2, 3>> \in S
Init == \E m \in MaxOcc : lv = <<NewLevel(m)>> /\ hasfi = TRUE /\ hist = <<[op |-> "p_new", m |-> m, r |-> <<>>]>>
Do(op, r, n) == lv' = n /\ hist' = Append(hist, [op |-> op, m |-> 0, r |-> r]) /\ UNCHANGED hasfi
Next == /\ Len(hist) <= K
        /\ \/ \E r \in MyRows : Do("p_add", r, Add(lv, r))
           \/ \E r \in MyRows : IF CanRemove(lv, r) THEN Do("p_remove", r, Remove(lv, r)) ELSE Do("p_remove", r, lv)
           \/ Len(lv) < 3 /\ Do("p_branch", <<>>, Branch(lv))
           \/ Len(lv) > 1 /\ Do("p_drop", <<>>, Drop(lv))
           \/ ~lv[Len(lv)].off /\ Do("p_disable", <<>>, Disable(lv))
Spec == Init /\ [][Next]_vars
Laws ==
  LET k == Len(lv) v == Recorded(lv, k) IN
  /\ DupsAt(lv, k) >= 0 /\ SizeAt(lv, k) = Len(v)
  /\ (~lv[k].off) => (TruthAt(lv, k) <=> ReportAt(lv, k) = {})
  /\ \A r \in MyRows :
       LET a == Add(lv, r) IN
       /\ CanRemove(a, r) /\ (~lv[k].off => /\ TruthAt(Remove(a, r), k) = TruthAt(lv, k)
                                            /\ DupsAt(Remove(a, r), k) = DupsAt(lv, k)
                                            /\ (TruthAt(a, k) => TruthAt(lv, k)))
       /\ (lv[k].off => TruthAt(a, k) = TruthAt(lv, k))
  /\ \A j \in 1..(k - 1) : TruthAt(lv, k) /\ ~lv[k].off => TruthAt(lv, j)
\* a branch starts from its parent's verdict and disturbs nothing below it
Undisturbed == [][Len(lv') >= Len(lv) => \A j \in 1..(Len(lv) - 1) : lv'[j] = lv[j]]_vars
Starts == [][Len(lv') = Len(lv) + 1 => TruthAt(lv', Len(lv')) = TruthAt(lv, Len(lv)) /\ SizeAt(lv', Len(lv')) = SizeAt(lv, Len(lv))]_vars
Emitted == (Emit /\ Len(hist) = K + 1) => PrintT("GEN " \o ToJson(hist))
=============================================================================
