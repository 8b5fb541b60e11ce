------------------------------- MODULE Prover -------------------------------
(* A stack of provers, each branched from the one below.  A level holds the
   rows recorded at it, each with its line (how many rows had been recorded in
   all, itself included), the number of occurrences allowed, and, once proving
   has been disabled, the verdict and report as they stood then.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NewLevel(max) == [m |-> <<>>, max |-> max, off |-> max = -1, truth |-> TRUE, fi |-> {}]
RECURSIVE Recorded(_, _)
Recorded(lv, k) == IF k = 0 THEN <<>> ELSE Recorded(lv, k - 1) \o lv[k].m
Lines(v, r) == SelectSeq(v, LAMBDA x : x.r = r)
Count(v, r) == Len(Lines(v, r))
RowsIn(v) == {v[i].r : i \in DOMAIN v}
Leqt(a, b) == a < b
LineList(v, r) == LET x == Lines(v, r) IN SortSeq([i \in DOMAIN x |-> x[i].l], Leqt)
\* the verdict and the report of level k
TruthAt(lv, k) == IF lv[k].off THEN lv[k].truth ELSE LET v == Recorded(lv, k) IN \A r \in RowsIn(v) : Count(v, r) <= lv[k].max
ReportAt(lv, k) == IF lv[k].off THEN lv[k].fi
                   ELSE LET v == Recorded(lv, k) IN {[r |-> r, l |-> LineList(v, r)] : r \in {x \in RowsIn(v) : Count(v, x) > lv[k].max}}
SizeAt(lv, k) == Len(Recorded(lv, k))
DupsAt(lv, k) == LET v == Recorded(lv, k) IN Len(v) - Cardinality(RowsIn(v))

Add(lv, r) == [lv EXCEPT ![Len(lv)].m = Append(@, [r |-> r, l |-> SizeAt(lv, Len(lv)) + 1])]
CanRemove(lv, r) == \E i \in DOMAIN lv[Len(lv)].m : lv[Len(lv)].m[i].r = r
RemoveAt(v, i) == SubSeq(v, 1, i - 1) \o SubSeq(v, i + 1, Len(v))
\* the newest instance goes: that of the greatest line (the later of two alike)
Newest(v, r) == CHOOSE i \in DOMAIN v : v[i].r = r /\ \A j \in DOMAIN v : v[j].r = r => v[j].l < v[i].l \/ (v[j].l = v[i].l /\ j <= i)
Remove(lv, r) == [lv EXCEPT ![Len(lv)].m = RemoveAt(@, Newest(@, r))]
Branch(lv) == LET t == lv[Len(lv)] k == Len(lv) IN
  Append(lv, [m |-> <<>>, max |-> t.max, off |-> t.off, truth |-> TruthAt(lv, k), fi |-> ReportAt(lv, k)])
Drop(lv) == IF Len(lv) > 1 THEN SubSeq(lv, 1, Len(lv) - 1) ELSE lv
Disable(lv) == LET k == Len(lv) IN
  [lv EXCEPT ![k].off = TRUE, ![k].max = -1, ![k].truth = TruthAt(lv, k), ![k].fi = ReportAt(lv, k)]
=============================================================================
