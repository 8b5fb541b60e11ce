------------------------------- MODULE Extent -------------------------------
(* The rows in which w working bells are permuted between h hunts and the
   tenors, t bells in all, in lexicographic order from rounds; their ranks.   *)
EXTENDS Change

Member(r, w, h, t) == Len(r) = t /\ IsRowSeq(r) /\ \A i \in 1..t : (i <= h \/ i > h + w) => r[i] = i
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
Incourse(r) == Sign(r) = 1
Increasing(v) == \A i \in 1..(Len(v) - 1) : LexLess(v[i], v[i + 1])
\* v lists the whole extent
IsExtent(v, w, h, t) == /\ Len(v) = Fact(w) /\ Increasing(v)
                        /\ \A i \in 1..Len(v) : Member(v[i], w, h, t)
IsIncourseExtent(v, w, h, t) == /\ Len(v) = (IF w < 2 THEN 1 ELSE Fact(w) \div 2) /\ Increasing(v)
                                /\ \A i \in 1..Len(v) : Member(v[i], w, h, t) /\ Incourse(v[i])
\* Rank of a row (0-based): for each working place the number of later, smaller bells
Smaller(r, i, hi) == Cardinality({j \in (i + 1)..hi : r[j] < r[i]})
RECURSIVE RankFrom(_, _, _)
RankFrom(r, i, hi) == IF i > hi THEN 0 ELSE Smaller(r, i, hi) * Fact(hi - i) + RankFrom(r, i + 1, hi)
Rank(r, w, h) == RankFrom(r, h + 1, h + w)
\* Unrank: choose each bell from those left, in order
RECURSIVE Pick(_, _, _)
Pick(n, left, acc) == IF left = <<>> THEN acc ELSE
  LET f == Fact(Len(left) - 1)
      k == n \div f + 1
  IN Pick(n % f, [i \in 1..(Len(left) - 1) |-> IF i < k THEN left[i] ELSE left[i + 1]], Append(acc, left[k]))
Unrank(n, w, h, t) == LET m == Pick(n, [i \in 1..w |-> h + i], <<>>)
                      IN [i \in 1..t |-> IF i <= h \/ i > h + w THEN i ELSE m[i - h]]
IncourseRank(r, w, h) == Rank(r, w, h) \div 2
IncourseUnrank(n, w, h, t) == LET a == Unrank(2 * n, w, h, t) IN IF Incourse(a) THEN a ELSE Unrank(2 * n + 1, w, h, t)
\* the changes: any swaps of working bells
ExtentChanges(w, h, t) == {[n |-> t, s |-> [i \in 1..Len(c.s) |-> c.s[i] + h]] : c \in Changes(w)}
=============================================================================
