------------------------------- MODULE Method -------------------------------
(* What a method is, judged from its changes alone.  A method q is a nonempty
   sequence of changes on one stage.                                         *)
EXTENDS PlaceNotation

Stage(q) == q[1].n
RECURSIVE RowAfter(_, _)
RowAfter(q, k) == TLCEval(IF k = 0 THEN Rounds(Stage(q)) ELSE ApplyCh(RowAfter(q, k - 1), q[k]))
LeadHead(q) == RowAfter(q, Len(q))
Leads(q) == Order(LeadHead(q))
Hunts(q) == {b \in 1..Stage(q) : LeadHead(q)[b] = b}
IsRegular(q) == LET r == LeadHead(q) IN LeadingFixed(r) > 0 /\ WhichPBLH(r, LeadingFixed(r)) # 0
IsDouble(q) == Len(q) % 2 = 0 /\ \A i \in 1..(Len(q) \div 2) : q[i] = ReverseCh(q[(Len(q) \div 2) + i])

\* The path of the bell in place b: its place at each row, the lead end included,
\* and on through the next lead.
Moves(q) == TLCEval([i \in 1..Len(q) |-> TLCEval(ChangeRow(q[i]))])
RECURSIVE Trail(_, _, _)
Trail(mv, k, acc) == IF k > Len(mv) + 1 THEN acc
                     ELSE Trail(mv, k + 1, Append(acc, mv[((k - 1) % Len(mv)) + 1][acc[k]]))
PathOf(mv, b) == LET t == Trail(mv, 1, <<b>>) IN TLCEval([k \in 0..(Len(mv) + 1) |-> t[k + 1]])
Paths(q) == LET mv == Moves(q) IN TLCEval([b \in 1..Stage(q) |-> PathOf(mv, b)])
\* Most rows in one place: a bell making k places running is there for k + 1 rows.
\* Runs continue from one lead to the next.
RECURSIVE LongestRun(_, _, _, _, _)
LongestRun(mv, p, k, run, best) ==
  IF k > 2 * Len(mv) THEN Min2(best, Len(mv))
  ELSE IF mv[((k - 1) % Len(mv)) + 1][p] = p THEN LongestRun(mv, p, k + 1, run + 1, Max2(best, run + 1))
  ELSE LongestRun(mv, p, k + 1, 0, best)
MaxBlows(q) == LET mv == Moves(q)
                   R == {LongestRun(mv, p, 1, 0, 0) : p \in 1..Stage(q)} IN 1 + CHOOSE k \in R : \A m \in R : m <= k

\* The bell's path is the same either side of a place made at change i (0-based),
\* and of another half a lead later.  (mv: the moves of the method; p: the bell's path)
RECURSIVE PalFrom(_, _, _, _)
PalFrom(mv, i, j, h) ==
  LET n == Len(mv)
      x == mv[((i + j) % n) + 1][h]
  IN IF j = n \div 2 THEN x = h ELSE x = mv[((i - j + n) % n) + 1][h] /\ PalFrom(mv, i, j + 1, x)
BellPal(mv, p, i) == p[i] = p[i + 1] /\ PalFrom(mv, i, 1, p[i + 1])
BellSymPoint(mv, p) == LET S == {i \in 0..((Len(mv) \div 2) - 1) : BellPal(mv, p, i)} IN
                       IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j

IsPlaceAt(p, k) == p[k] = p[k - 1]
\* Plain hunting: back where it began after turning round exactly twice
IsPlain(n, p) ==    \* n changes in the lead
  /\ p[n] = p[0]
  /\ Cardinality({k \in 1..n : IsPlaceAt(p, k)}) = 2
  /\ \A k \in 2..(n + 1) : ~(p[k] = p[k - 2] /\ p[k] # p[k - 1])
  /\ (n > 2 => \A k \in 2..(n + 1) : ~(IsPlaceAt(p, k) /\ IsPlaceAt(p, k - 1)))
HasDodges(n, p) == \E k \in 2..(n + 1) : p[k] = p[k - 2] /\ p[k] # p[k - 1]
HasPlaces(n, p, stage) == \E k \in 1..n : IsPlaceAt(p, k) /\ p[k] > 1 /\ p[k] < stage

\* ---- classes ----------------------------------------------------------------
PRINCIPLE == 1  BOB == 2  PLACE == 3  TREBLEBOB == 4  SURPRISE == 5  DELIGHT == 6
TREBLEPLACE == 7  ALLIANCE == 8  HYBRID == 9  SLOWCOURSE == 10  DIFFERENTIAL == 16  LITTLE == 128

MethClass(q, year) ==
  LET lh == LeadHead(q)
      n == Stage(q)
      len == Len(q)
      H == Hunts(q)
      W == (1..n) \ H
      Cyc == {Range(Cycle(lh, b)) : b \in W}
      diff == IF year >= 2019 THEN \E x, y \in Cyc : Cardinality(x) # Cardinality(y) ELSE Cardinality(Cyc) > 1
      t == CHOOSE b \in H : \A c \in H : b <= c
      mv == Moves(q)
      P == Paths(q)
      p == P[t]
      Pos2 == {p[k] : k \in 0..len}
      lo == CHOOSE x \in Pos2 : \A y \in Pos2 : x <= y
      hi == CHOOSE x \in Pos2 : \A y \in Pos2 : x >= y
      sp == BellSymPoint(mv, p)
      \* the rows of the half lead after the symmetry point, and the changes within it
      HalfRows == {(sp + k) % len : k \in 1..(len \div 2)}
      HalfChanges == {((sp + k) % len) + 1 : k \in 1..((len \div 2) - 1)}
      Blows(x) == Cardinality({k \in HalfRows : p[k] = x})
      even == Cardinality({Blows(x) : x \in lo..hi}) = 1
      places == \E k \in HalfChanges : p[k] = p[k - 1]
      \* the changes at which the treble passes from one dodging position to another
      step == len \div (hi - lo + 1)
      CrossSections == {((sp + k * step) % len) + 1 : k \in (1..(hi - lo)) \ {(hi - lo + 1) \div 2}}
      kind == IF len % 2 = 1 \/ sp = -1 THEN HYBRID
              ELSE IF IsPlain(len, p) THEN
                IF year < 2019 /\ t = 1 /\ n > 1 /\ 2 \in H /\ BellPal(mv, P[2], (len \div 2) - 1) THEN SLOWCOURSE
                ELSE IF \E b \in 1..n : HasDodges(len, P[b]) THEN BOB ELSE PLACE
              ELSE IF ~even THEN ALLIANCE
              ELSE IF places THEN TREBLEPLACE
              ELSE IF hi = lo + 1 THEN TREBLEBOB
              ELSE IF \A k \in CrossSections : Internal(q[k]) THEN SURPRISE
              ELSE IF \A k \in CrossSections : ~Internal(q[k]) THEN TREBLEBOB
              ELSE DELIGHT
  IN (IF diff THEN DIFFERENTIAL ELSE 0) +
     (IF H = {} THEN PRINCIPLE ELSE (IF lo > 1 \/ hi < n THEN LITTLE ELSE 0) + kind)

KindName(k) == CASE k = BOB -> "Bob" [] k = PLACE -> "Place" [] k = TREBLEBOB -> "Treble Bob" [] k = SURPRISE -> "Surprise"
  [] k = DELIGHT -> "Delight" [] k = TREBLEPLACE -> "Treble Place" [] k = ALLIANCE -> "Alliance" [] k = HYBRID -> "Hybrid"
  [] k = SLOWCOURSE -> "Slow Course" [] OTHER -> ""
Words(ws) == LET NE(x) == x # "" IN JoinWith(SelectSeq(ws, NE), " ")
\* From 2019 hybrid is no part of the name
ClassName(cl, year) ==
  Words(<<IF Has(cl, DIFFERENTIAL) THEN "Differential" ELSE "", IF Has(cl, LITTLE) THEN "Little" ELSE "",
          IF year >= 2019 /\ cl % 16 = HYBRID THEN "" ELSE KindName(cl % 16)>>)
StageNames == <<"Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus",
  "Sextuples", "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty", "Decuples", "Twenty-two">>
StageName(n) == IF n >= 3 /\ n <= 22 THEN StageNames[n - 2] ELSE ToString(n)
NoClass(q, name) == name \in {"Grandsire", "Reverse Grandsire", "Double Grandsire", "Little Grandsire"}
                    \/ (Stage(q) > 5 /\ name \in {"Union", "Double Union", "Reverse Union"})
\* cl: the class of q in that year
FullName(q, name, year, cl) == Words(<<name, IF NoClass(q, name) THEN "" ELSE ClassName(cl, year), StageName(Stage(q))>>)

\* ---- lead head codes ------------------------------------------------------------
\* Seconds place (or, with two hunts, thirds) lead ends: a b c c1 c2 .. d2 d1 d e f on even
\* orders of work, p p1 .. q1 q on odd; firsts place ones g h j j1 .. k1 k l m and r r1 .. s1 s.
LHCode(q) ==
  LET lh == LeadHead(q)
      n == Stage(q)
      w == IF LeadingFixed(lh) = 0 THEN 0 ELSE WhichPBLH(lh, LeadingFixed(lh))
      twin == lh[2] = 2
      o == IF twin THEN n - 2 ELSE n - 1
      k == IF twin THEN o - w ELSE w
      C(pl) == FromPlaces(n, pl)
      is(c, pl) == C(pl).ok /\ c = C(pl).c
      where == IF twin THEN (IF is(q[1], <<>>) THEN 1 ELSE IF is(q[1], <<3>>) THEN 2 ELSE 0)
               ELSE (IF is(q[Len(q)], <<1>>) THEN 1 ELSE IF is(q[Len(q)], <<1, 2>>) THEN 2 ELSE 0)
      m == IF k > o \div 2 THEN o - k ELSE k
      up == m = k
      L == IF o % 2 = 1 THEN (IF where = 2 THEN <<"a", "b", "c", "f", "e", "d">> ELSE <<"g", "h", "j", "m", "l", "k">>)
           ELSE (IF where = 2 THEN <<"p", "q">> ELSE <<"r", "s">>)
      top == Len(L) \div 2
      letter == L[Min2(m, top) + (IF up THEN 0 ELSE top)]
  IN IF n < 3 THEN "z" ELSE
     IF LeadingFixed(lh) \notin {1, 2} \/ w = 0 \/ where = 0 THEN "z"
     ELSE IF Gcd(k, o) > 1 THEN "z"
     ELSE letter \o (IF m > top THEN ToString(m - top) ELSE "")
=============================================================================
