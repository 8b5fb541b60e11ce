----------------------------- MODULE MethSearch -----------------------------
(* What methsearch is asked for, and the methods there are that fit.

   A change is the involution giving, for each place, the place its bell moves to.
   Changes are numbered from 0 within the lead; m[i + 1] is change i.  A search is
   a record o of options (see tools/props/meths.py); Search(o) is the sequence of
   all the methods, in order, that meet every requirement.  The requirements are
   stated on the finished method; Fits tells which of them a beginning of a method
   can already break, so that Search need not look at every method there is.     *)
EXTENDS Method, Groups

Exactly(x) == {TLCEval(x)}
Bind(x, F(_)) == CHOOSE y \in {F(z) : z \in {TLCEval(x)}} : TRUE

\* ---- changes -----------------------------------------------------------------
Made(c) == SelectSeq([i \in 1..Len(c) |-> i], LAMBDA i : c[i] = i)     \* the places made
ChBefore(c, d) == LexLess(Made(c), Made(d))
Flip(c) == [i \in 1..Len(c) |-> Len(c) + 1 - c[Len(c) + 1 - i]]
NumMade(c) == Cardinality({i \in 1..Len(c) : c[i] = i})
Null(c) == \A i \in 1..Len(c) : c[i] = i
InternalC(c) == \E i \in 2..(Len(c) - 1) : c[i] = i
SignC(c) == IF ((Len(c) - NumMade(c)) \div 2) % 2 = 0 THEN 1 ELSE -1
AdjMade(c, k) == \E i \in 1..(Len(c) - k) : \A j \in i..(i + k) : c[j] = j     \* more than k places together
AllC(n) == {ChangeRow(c) : c \in Changes(n)}
InOrder(S) == SetToSortSeq(S, ChBefore)
ToCh(c) == FromSet(Len(c), {i \in 1..(Len(c) - 1) : c[i] = i + 1})
CText(c) == IF \E i \in 1..Len(c) : c[i] = i THEN RowText(Made(c)) ELSE "X"
PlacesC(n, pl) == ChangeRow(FromPlaces(n, pl).c)
PlacesOK(n, pl) == FromPlaces(n, pl).ok
\* lexicographic order on (parts of) methods
MBefore(m, q) ==
  LET k == Min2(Len(m), Len(q))
      D == {i \in 1..k : m[i] # q[i]}
  IN IF D = {} THEN Len(m) < Len(q) ELSE LET i == CHOOSE x \in D : \A y \in D : x <= y IN ChBefore(m[i], q[i])

\* ---- the path of the hunts -----------------------------------------------------
Width(o) == o.back - o.front + 1
DivLen(o) == 2 * (1 + o.G)
LeadLen(o) == IF o.U > 0 THEN Width(o) * DivLen(o) ELSE o.n
\* the place of the first hunt at row t, for any integer t
TrebleAt(o, t) ==
  LET per == Width(o) * DivLen(o)
      u == t % per
      v == IF 2 * u < per THEN u ELSE per - 1 - u
  IN o.front + 2 * (v \div DivLen(o)) + ((v % DivLen(o)) % 2)
\* the others course it: 2 after it, 3 before it, 4 after 2 ...
HuntAt(o, h, t) == TrebleAt(o, t + (1 + o.G) * (IF h = 1 THEN 0 ELSE IF h % 2 = 0 THEN -h ELSE h - 1))
HuntPlaces(o, i) == {HuntAt(o, h, i) : h \in 1..o.U} \cup {HuntAt(o, h, i + 1) : h \in 1..o.U}
Treble2(o, i) == {TrebleAt(o, i), TrebleAt(o, i + 1)}
Lo(o, i) == CHOOSE x \in HuntPlaces(o, i) : \A y \in HuntPlaces(o, i) : x <= y
Hi(o, i) == CHOOSE x \in HuntPlaces(o, i) : \A y \in HuntPlaces(o, i) : x >= y
HuntsRight(o, i, c) == \A h \in 1..o.U : c[HuntAt(o, h, i)] = HuntAt(o, h, i + 1)
\* the treble passes from one dodging position to the next
CrossSection(o, i) == LET L == LeadLen(o) IN o.U > 0 /\ (i + 1) % DivLen(o) = 0 /\ i # L - 1 /\ i # (L \div 2) - 1

\* ---- symmetry -------------------------------------------------------------------
Syms(o) == LET S == Range(o.sym) IN IF Cardinality(S) >= 2 THEN {"s", "k", "d"} ELSE S
Shifted(o) == IF o.U > 0 /\ o.U % 2 = 0 THEN 1 + o.G ELSE 0
\* the change to which each is related
Image(o, k, i) ==
  LET L == LeadLen(o)
      q == (L \div 4) - 1 + Shifted(o)
  IN CASE k = "s" -> (2 * ((L \div 2) - 1 + Shifted(o)) - i) % L
       [] k = "k" -> (2 * q + (IF L % 4 = 0 THEN 0 ELSE 1) - i) % L
       [] k = "d" -> (i + (L \div 2)) % L
Rel(k, c) == IF k = "s" THEN c ELSE Flip(c)
SymAt(m, k, f(_)) == \A i \in 0..(Len(m) - 1) : m[f(i) + 1] = Rel(k, m[i + 1])
\* the same about any point
HasSym(m, k) == LET L == Len(m) IN
  CASE k = "d" -> L % 2 = 0 /\ SymAt(m, k, LAMBDA i : (i + (L \div 2)) % L)
    [] k = "s" -> \E x \in 0..(L - 1) : SymAt(m, k, LAMBDA i : (2 * x - i + 2 * L) % L)
    [] k = "k" -> \E x \in 0..(2 * L - 1) : SymAt(m, k, LAMBDA i : (x - i + 2 * L) % L)
    [] k = "m" -> \A i \in 1..L : m[i] = Flip(m[i])

\* ---- masks ------------------------------------------------------------------------
AnyItem == [k |-> "any", alts |-> <<>>]
Rep(k) == [i \in 1..k |-> AnyItem]
StarAt(s) == LET S == {i \in 1..Len(s.items) : s.items[i].k = "star"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
SideLen(s) == IF s.sym THEN 2 * Len(s.items) - 1 ELSE Len(s.items)     \* if without a star
MirrorQ(q) == q \o ReverseSeq(SubSeq(q, 1, Len(q) - 1))
NoItems == [ok |-> FALSE, q |-> <<>>]
\* the items of a side of a block, len in all
Expand(s, len) ==
  LET x == StarAt(s)
      h == Len(s.items)
      cut(k) == SubSeq(s.items, 1, x - 1) \o Rep(k) \o SubSeq(s.items, x + 1, h)
  IN IF x = 0 THEN (IF SideLen(s) = len THEN [ok |-> TRUE, q |-> IF s.sym THEN MirrorQ(s.items) ELSE s.items] ELSE NoItems)
     ELSE IF ~s.sym THEN (IF len >= h - 1 THEN [ok |-> TRUE, q |-> cut(len - (h - 1))] ELSE NoItems)
     ELSE IF x = h THEN
       LET k == len - 2 * (h - 1) IN IF k >= 1 /\ k % 2 = 1 THEN [ok |-> TRUE, q |-> SubSeq(s.items, 1, h - 1) \o Rep(k) \o ReverseSeq(SubSeq(s.items, 1, h - 1))]
                                     ELSE NoItems
     ELSE LET k2 == len - (2 * (h - 1) - 1) IN IF k2 >= 0 /\ k2 % 2 = 0 THEN [ok |-> TRUE, q |-> MirrorQ(cut(k2 \div 2))] ELSE NoItems
\* a block: side a above the hunts, side b below (the same if there is one only); 0 if its length is open
BlockLen(bl) == IF StarAt(bl.a) = 0 THEN SideLen(bl.a) ELSE IF StarAt(bl.b) = 0 THEN SideLen(bl.b) ELSE 0
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
MaskOf(o) ==
  LET L == LeadLen(o)
      known == Sum([i \in 1..Len(o.mask) |-> BlockLen(o.mask[i])])
      open == {i \in 1..Len(o.mask) : BlockLen(o.mask[i]) = 0}
      len(i) == IF i \in open THEN L - known ELSE BlockLen(o.mask[i])
      A == [i \in 1..Len(o.mask) |-> Expand(o.mask[i].a, len(i))]
      B == [i \in 1..Len(o.mask) |-> Expand(o.mask[i].b, len(i))]
      ok == Cardinality(open) <= 1 /\ (open = {} => known = L) /\ \A i \in 1..Len(o.mask) : A[i].ok /\ B[i].ok
  IN IF ok THEN [ok |-> TRUE, a |-> FlattenSeq([i \in 1..Len(A) |-> A[i].q]), b |-> FlattenSeq([i \in 1..Len(B) |-> B[i].q])]
     ELSE [ok |-> FALSE, a |-> <<>>, b |-> <<>>]
\* The change swaps above (below) the hunts what one of the alternatives does
AgreesAbove(o, i, c, it) == it.k = "any" \/ \E x \in Range(it.alts) : \A d \in Exactly(PlacesC(o.b, x)) :
   \A p \in (Hi(o, i) + 1)..(o.b - 1) : (c[p] = p + 1) <=> (d[p] = p + 1)
AgreesBelow(o, i, c, it) == it.k = "any" \/ \E x \in Range(it.alts) : \A d \in Exactly(PlacesC(o.b, x)) :
   \A p \in 1..(Lo(o, i) - 2) : (c[p] = p + 1) <=> (d[p] = p + 1)

\* ---- which changes can be used where --------------------------------------------------
Fl(o, k) == k \in Range(o.fl)
Trivial_(o) == Fl(o, "x")
\* the levels asked for, in order; the last stands
RECURSIVE LevelOf(_, _)
LevelOf(fl, v) == IF fl = <<>> THEN v ELSE
  LevelOf(Tail(fl), CASE fl[1] = "n" -> [h |-> FALSE, l |-> FALSE, c |-> FALSE]
                      [] fl[1] = "h" -> [h |-> TRUE, l |-> FALSE, c |-> FALSE]
                      [] fl[1] = "l" -> [h |-> TRUE, l |-> TRUE, c |-> FALSE]
                      [] fl[1] = "c" -> [h |-> TRUE, l |-> TRUE, c |-> TRUE]
                      [] fl[1] \in {"e", "e+"} -> [v EXCEPT !.h = TRUE, !.l = TRUE]
                      [] OTHER -> v)
Level(o) == IF Range(o.fl) \subseteq {"x", "n"} /\ Fl(o, "x") THEN [h |-> FALSE, l |-> FALSE, c |-> FALSE]
            ELSE LevelOf(o.fl, [h |-> TRUE, l |-> TRUE, c |-> FALSE])
Listed(o) == {PlacesC(o.b, x) : x \in Range(o.chs)}
\* with glide or rotational symmetry a change is of use only with its reverse
ListedSym(o) == IF Syms(o) \cap {"k", "d"} = {} THEN Listed(o)
                ELSE IF o.chinc THEN {c \in Listed(o) : Flip(c) \in Listed(o)} ELSE Listed(o) \cup {Flip(c) : c \in Listed(o)}
ChangeFits(o, c) ==
  /\ Trivial_(o) \/ ~Null(c)
  /\ Len(o.chs) > 0 => ((c \in ListedSym(o)) <=> o.chinc)
  /\ o.l > 0 => NumMade(c) <= o.l
  /\ o.j > 0 => ~AdjMade(c, o.j)
  /\ o.mirror => c = Flip(c)
LimitedLE(o, c) == c \in {PlacesC(o.b, <<1>>), PlacesC(o.b, <<1, o.U + 1>>)}
ClassFits(o, i, c) == CrossSection(o, i) =>
  CASE o.cls = "S" -> InternalC(c) [] o.cls = "T" -> ~InternalC(c)
    [] o.cls = "3" -> (Treble2(o, i) = {4, 5} => InternalC(c)) /\ (Treble2(o, i) = {2, 3} => ~InternalC(c))
    [] o.cls = "4" -> (Treble2(o, i) = {2, 3} => InternalC(c)) /\ (Treble2(o, i) = {4, 5} => ~InternalC(c))
    [] OTHER -> TRUE
\* the symmetry point of the hunts' path at the lead end, and at the half lead
LESym(o) == (LeadLen(o) - 1 + Shifted(o)) % LeadLen(o)
HLSym(o) == (LeadLen(o) \div 2) - 1 + Shifted(o)
Reversible(o) == Syms(o) \cap {"k", "d"} # {} \/ o.mirror
\* what methsearch has been asked about change i, apart from the mask
AllowedHunts(o, M, i, S) ==
  {c \in S :
     /\ HuntsRight(o, i, c) /\ ChangeFits(o, c) /\ ClassFits(o, i, c)
     /\ AgreesAbove(o, i, c, M.a[i + 1]) /\ AgreesBelow(o, i, c, M.b[i + 1])
     \* the mask overrides these
     /\ M.a[i + 1].k = "any" => LET R == (Hi(o, i) + 1)..o.b IN
          /\ o.w /\ i % 2 = o.b % 2 => \A p \in R : c[p] # p
          /\ o.f /\ Cardinality(R) > 1 => c[o.b - 1] # o.b - 1
     /\ M.b[i + 1].k = "any" => LET R == 1..(Lo(o, i) - 1) IN
          /\ o.w /\ i % 2 = 0 => \A p \in R : c[p] # p
          /\ o.f /\ Reversible(o) /\ Cardinality(R) > 1 => c[2] # 2
     \* but not these
     /\ o.f /\ i = LESym(o) => c[o.b - 1] # o.b - 1
     /\ o.e /\ i = LESym(o) => LimitedLE(o, c)}
AllowedPrin(o, M, i, S) ==
  IF M.a[i + 1].k = "alts" THEN {c \in {PlacesC(o.b, x) : x \in Range(M.a[i + 1].alts)} \cap S : o.f /\ i = LESym(o) => c[o.b - 1] # o.b - 1}
  ELSE {c \in S : /\ ChangeFits(o, c)
                  /\ o.w /\ o.b % 2 = 0 /\ i % 2 = 0 => \A p \in 1..o.b : c[p] # p
                  /\ o.f => c[o.b - 1] # o.b - 1
                  /\ o.f /\ Syms(o) \cap {"k", "d"} # {} => c[2] # 2}
AllowedIn(o, M, i, S) == IF o.U > 0 THEN AllowedHunts(o, M, i, S) ELSE AllowedPrin(o, M, i, S)
Allowed(o, M, i) == AllowedIn(o, M, i, AllC(o.b))

\* ---- lead heads -------------------------------------------------------------------------
IsCyclicLH(r, U) ==
  LET n == Len(r) IN
  /\ \A i \in 1..U : r[i] = i
  /\ U < n /\ r[U + 1] # U + 1
  /\ \A i \in (U + 2)..n : (r[i] - U) % (n - U) = (r[i - 1] + 1 - U) % (n - U)
PlainBobLHs(n, h) == {Pow(PlainBobLH(n, h), i) : i \in 1..(n - h - 1)}
LeadHeadFits(o, r) ==
  /\ ~o.A => \A S \in CycleSets(r) : IF Cardinality(S) = 1 THEN S \subseteq o.front..(o.front + o.U - 1) ELSE Cardinality(S) = o.b - o.U
  /\ CASE o.lh = "r" -> r \in PlainBobLHs(o.b, o.U)
       [] o.lh = "c" -> IsCyclicLH(r, o.U)
       [] o.lh = "any" -> r \in PlainBobLHs(o.b, LeadingFixed(r))
       [] OTHER -> TRUE

\* ---- half leads -----------------------------------------------------------------------------
\* a wrap of the working bells, the treble behind
Ascending(r) == r[Len(r)] = 1 /\ \A i \in 2..(Len(r) - 1) : ((r[i - 1] - 1) % (Len(r) - 1)) + 2 = r[i]
Descending(r) == r[Len(r)] = 1 /\ \A i \in 1..(Len(r) - 2) : ((r[i + 1] - 1) % (Len(r) - 1)) + 2 = r[i]
RegularHL(r) == LET n == Len(r) IN
  \E x \in {Backrounds(n), Mul(Backrounds(n), PlacesC(n, <<n>>))} : \E i \in 0..(n - 2) : r = Mul(Pow(PlainBobLH(n, 1), i), x)
HalfFits(o, hle, hlh) == Len(o.hl) > 0 =>
  \/ \E k \in Range(o.hl) : k = "rh" /\ Descending(hlh)
  \/ \E k \in Range(o.hl) : k = "re" /\ Descending(hle)
  \/ \E k \in Range(o.hl) : k = "ch" /\ Ascending(hlh)
  \/ \E k \in Range(o.hl) : k = "ce" /\ Ascending(hle)
  \/ \E k \in Range(o.hl) : k = "reg" /\ RegularHL(hlh) /\ RegularHL(hle)

\* ---- truth ---------------------------------------------------------------------------------------
\* K: the search in hand.  Rows are told apart up to part ends.
\* A search with known finding kf does not tell the first row is rounds unless it is given
FirstLabel(K) == IF K.o.kf /\ K.o.start = <<>> /\ Cardinality(K.P) = 1 THEN {<<>>} ELSE IF Cardinality(K.P) = 1 THEN {K.start} ELSE {Mul(x, K.start) : x \in K.P}
Label(K, r) == IF Cardinality(K.P) = 1 THEN {r} ELSE {Mul(x, r) : x \in K.P}
Times(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Fresh(K, q, x) == Times(q, x) < K.o.N /\ x \notin K.avoid
TrueRows(K, q) == \A i \in 1..Len(q) : Times(q, q[i]) <= K.o.N /\ q[i] \notin K.avoid
Labels(K, rows, i, j) == TLCEval([k \in 1..(j - i + 1) |-> Label(K, rows[i + k - 1])])
\* rows: row 0 to the lead head, of the lead from K.start
CourseRows(K, rows) ==
  LET lh == TLCEval(Mul(Inv(K.start), rows[K.L + 1]))
      lead(x) == [i \in 1..K.L |-> TLCEval(Label(K, Mul(K.start, Mul(x, Mul(Inv(K.start), rows[i])))))]
  IN TLCEval([FlattenSeq([k \in 1..Order(lh) |-> lead(TLCEval(PowNat(lh, k - 1)))]) EXCEPT ![1] = FirstLabel(K)])
TrueMethod(K, rows) ==
  LET L == K.L
      hl == L \div 2
      all == TLCEval([Labels(K, rows, 1, L + 1) EXCEPT ![1] = FirstLabel(K)])
      lead == SubSeq(all, 1, L)
      first == SubSeq(all, 1, hl)
      second == SubSeq(all, hl + 1, L)
  IN IF K.o.kf /\ K.lev.h /\ K.o.U > 0 /\ K.o.G > 1 /\ K.o.N = 1 /\ rows[1] \in {rows[i] : i \in 2..DivLen(K.o)} THEN FALSE
     ELSE IF K.lev.c THEN TrueRows(K, CourseRows(K, rows))
     ELSE IF K.lev.l THEN TrueRows(K, lead) /\ (all[L + 1] = all[1] \/ Times(lead, all[L + 1]) < K.o.N)
     ELSE IF ~K.lev.h THEN K.o.avoid = <<>> \/ \A i \in 1..L : all[i] \notin K.avoid
     ELSE IF K.o.U > 0 /\ Cardinality(K.P) = 1 THEN
        TrueRows(K, first) /\ (\A i \in 1..Len(second) : Times(second, second[i]) <= K.o.N)
     \* the half-lead head, and the lead head, must be new or no change from the row before the half lead
     ELSE /\ TrueRows(K, first)
          /\ "s" \in Syms(K.o) => all[hl + 1] = all[hl] \/ Fresh(K, first, all[hl + 1])
          /\ IF Syms(K.o) \cap {"s", "d"} = {} THEN TrueRows(K, second) /\ (all[L + 1] = all[1] \/ Fresh(K, second, all[L + 1]))
             ELSE all[L + 1] = all[1] \/
                  Fresh(K, IF "s" \in Syms(K.o) /\ all[hl + 1] # all[hl] THEN Append(first, all[hl + 1]) ELSE first, all[L + 1])
\* and what of it a beginning can break: d changes and one more, to a row labelled x
TrueSoFar(K, q, d, x) ==
  IF K.lev.l \/ ~K.lev.h THEN d + 1 < K.L => (IF K.lev.l THEN Fresh(K, q, x) ELSE x \notin K.avoid)
  ELSE d + 1 < K.L \div 2 => Fresh(K, q, x)

\* ---- a change after others -----------------------------------------------------------------------
\* Blows in one place: k places running make k + 1.  With ll the change at the lead-end symmetry point is not counted.
RECURSIVE RunBack(_, _, _, _)
RunBack(m, i, p, stop) == IF i < 1 \/ i = stop \/ m[i][p] # p THEN 0 ELSE 1 + RunBack(m, i - 1, p, stop)
RECURSIVE RunOn(_, _, _, _)
RunOn(m, i, p, stop) == IF i > Len(m) \/ i = stop \/ m[i][p] # p THEN 0 ELSE 1 + RunOn(m, i + 1, p, stop)
StopAt(K) == IF K.o.ll THEN LESym(K.o) + 1 ELSE 0
BlowsFit(K, m, d, c) == K.o.p > 0 /\ d + 1 # StopAt(K) => \A p \in 1..K.o.b : c[p] = p => 2 + RunBack(m, d, p, StopAt(K)) <= K.o.p
\* across the lead end
WrapFits(K, m) == K.o.p > 0 /\ K.L > 1 => \A p \in 1..K.o.b :
  LET back == RunBack(m, K.L, p, StopAt(K)) IN
  back = 0 \/ 1 + back + RunOn(m, 1, p, StopAt(K)) <= K.o.p
\* each section symmetric about its middle
\* (known finding ky: not checked of changes that the symmetry settles)
SectionFits(o, m, d, c) == ~(o.ky /\ ~o.floating /\ \E k \in Syms(o) : Image(o, k, d) < d) => LET j == d % DivLen(o) IN
  o.y /\ o.U > 0 /\ j < DivLen(o) - 1 /\ 2 * j > DivLen(o) - 2 => c = m[d - 2 * j + DivLen(o) - 1]
\* the rows with the treble in each place of a section are half of each parity
RECURSIVE Parities(_, _)
Parities(cs, acc) == IF cs = <<>> THEN acc ELSE Parities(Tail(cs), Append(acc, acc[Len(acc)] * SignC(cs[1])))
ParityFits(o, m, d, c) == o.P /\ d % DivLen(o) = DivLen(o) - 2 =>
  \A s \in Exactly(Parities(Append(SubSeq(m, d - DivLen(o) + 3, d), c), <<1>>)) :
    \A x \in {0, 1} : Cardinality({i \in 1..Len(s) : i % 2 = x /\ s[i] = 1}) = Cardinality({i \in 1..Len(s) : i % 2 = x /\ s[i] = -1})
\* What the changes before have settled
SymFits(K, m, d, c) == K.o.floating \/ \A k \in Syms(K.o) : \A i \in {Image(K.o, k, d)} :
  IF i < d THEN c = Rel(k, m[i + 1]) ELSE IF i = d THEN c = Rel(k, c) ELSE TRUE
\* cross sections without an internal place, of how many, in each half lead or in all the lead
Sections(o, half) == {i \in 0..(LeadLen(o) - 1) : CrossSection(o, i) /\ (half => i < LeadLen(o) \div 2)}
External(o, m, half) == Cardinality({i \in Sections(o, half) : ~InternalC(m[i + 1])})
\* with the usual symmetry the half lead settles this
DelightSoFar(o, m, d) == o.cls \in {"D", "SD", "EX", "SEX", "PT3", "PT4"} /\ "s" \in Range(o.sym) /\ o.U % 2 = 1 /\ ~o.floating /\ d = LeadLen(o) \div 2 =>
  LET h == External(o, m, TRUE) n == Cardinality(Sections(o, TRUE)) IN
    n > 0 => h > 0 /\ h < n /\ CASE o.cls = "SD" -> h = 1 [] o.cls = "EX" -> h >= 2 [] o.cls = "SEX" -> h = 2 [] o.cls = "PT3" -> h = 3 [] o.cls = "PT4" -> h = 4 [] OTHER -> TRUE
StructFits(K, m, d, c, row) ==
  /\ DelightSoFar(K.o, m, d)
  /\ SymFits(K, m, d, c)
  /\ Trivial_(K.o) \/ d = 0 \/ (c # m[d] /\ (d = K.L - 1 => c # m[1]))
  /\ SectionFits(K.o, m, d, c) /\ ParityFits(K.o, m, d, c)
  /\ BlowsFit(K, m, d, c)
  /\ d = (K.L \div 2) - 1 => HalfFits(K.o, row, Mul(row, c))

\* ---- finished methods --------------------------------------------------------------------------------
DelightFits(o, m) == LET e == External(o, m, FALSE) h == External(o, m, TRUE) n == Cardinality(Sections(o, FALSE)) IN
  o.cls \in {"D", "SD", "EX", "SEX", "PT3", "PT4"} /\ n > 0 =>
    /\ e > 0 /\ e < n
    /\ CASE o.cls = "SD" -> h = 1 [] o.cls = "EX" -> h >= 2 [] o.cls = "SEX" -> h = 2 [] o.cls = "PT3" -> h = 3 [] o.cls = "PT4" -> h = 4 [] OTHER -> TRUE
\* Points: a pair of bells swap an even number of times running (pl: or make both the places, in between)
Together(c, i, pl) == c[i] = i + 1 \/ (pl /\ c[i] = i /\ c[i + 1] = i + 1)
RECURSIVE Runs(_, _, _, _, _)
Runs(m, i, pl, k, run) ==    \* lengths of the runs that end after change k, going once round from a change that ends one
  IF k > 2 * Len(m) THEN {}
  ELSE IF Together(m[((k - 1) % Len(m)) + 1], i, pl) THEN Runs(m, i, pl, k + 1, run + 1)
  ELSE (IF run > 0 THEN {run} ELSE {}) \cup Runs(m, i, pl, k + 1, 0)
Broken(m, i, pl) == {k \in 1..Len(m) : ~Together(m[k], i, pl)}
HasPoints(m, pl) == \E i \in 1..(Len(m[1]) - 1) : Broken(m, i, pl) # {} /\
  \E k \in {CHOOSE x \in Broken(m, i, pl) : TRUE} : \E r \in Runs(m, i, pl, k, 0) : r % 2 = 0
\* Started from the treble's last snap of the first section, a lead takes rounds to a row cyclic there
RotatedRow(m, k) == CHOOSE y \in {TLCEval(FoldLeft(LAMBDA r, c : Mul(r, c), Rounds(Len(m[1])), [i \in 1..Len(m) |-> m[((i - 1 + k) % Len(m)) + 1]]))} : TRUE
OffsetFits(o, m) == o.offset =>
  IF o.U = 0 THEN \E k \in 0..(Len(m) - 1) : IsCyclicLH(RotatedRow(m, k), 0)
  ELSE \E r \in Exactly(FoldLeft(LAMBDA x, c : Mul(x, c), Rounds(o.b), SubSeq(m, 1, DivLen(o) - 2))) :
       \E lh \in Exactly(RotatedRow(m, 0)) :
         \E x \in Exactly(Mul(Mul(r, Cyclic(o.b, o.U, 1)), Inv(r))) : LeadHeadFits(o, x) /\ \E k \in 1..Order(x) : lh = PowNat(x, k)
StructWhole(K, m, lh) ==
  /\ WrapFits(K, m) /\ DelightFits(K.o, m) /\ LeadHeadFits(K.o, lh)
  /\ K.o.floating => \A k \in Syms(K.o) : HasSym(m, k)
  /\ OffsetFits(K.o, m)
  /\ ("np" \in Range(K.o.points) => ~HasPoints(m, FALSE)) /\ ("hp" \in Range(K.o.points) => HasPoints(m, FALSE))
  /\ ("nu" \in Range(K.o.points) => ~HasPoints(m, TRUE)) /\ ("hu" \in Range(K.o.points) => HasPoints(m, TRUE))
\* the same method with lead end change c would do, whatever its truth
Variant(K, st, c) ==
  LET m == SubSeq(st.m, 1, K.L - 1)
      row == Mul(Inv(K.start), st.r[K.L])
  IN c \in Range(K.al[K.L]) /\ StructFits(K, m, K.L - 1, c, row) /\ StructWhole(K, Append(m, c), Mul(row, c))
PreferFits(K, st) == K.o.E /\ ~LimitedLE(K.o, st.m[K.L]) =>
  \A c \in {PlacesC(K.o.b, <<1>>), PlacesC(K.o.b, <<1, K.o.U + 1>>)} : ~Variant(K, st, c)
Finished(K, st) ==
  /\ ~MBefore(st.m, K.from)
  /\ StructWhole(K, st.m, Mul(Inv(K.start), st.r[K.L + 1]))
  /\ TrueMethod(K, st.r)
  /\ PreferFits(K, st)

\* ---- searching ---------------------------------------------------------------------------------------
Follows(K, st, d, c) ==
  /\ d < Len(K.o.prefix) => c = PlacesC(K.o.b, K.o.prefix[d + 1])
  /\ ~MBefore(Append(st.m, c), SubSeq(K.from, 1, Min2(d + 1, Len(K.from))))
  /\ StructFits(K, st.m, d, c, Mul(Inv(K.start), st.r[d + 1]))
  /\ \A x \in Exactly(Label(K, Mul(st.r[d + 1], c))) : TrueSoFar(K, st.q, d, x)
After(K, st, c) == TLCEval([m |-> Append(st.m, c), r |-> Append(st.r, Mul(st.r[Len(st.r)], c)),
                            q |-> Append(st.q, Label(K, Mul(st.r[Len(st.r)], c)))])
RECURSIVE Level_(_, _, _)
Level_(K, d, S) ==     \* S: the beginnings of d changes, in order
  IF S = <<>> THEN <<>>
  ELSE IF d = K.L THEN SelectSeq(S, LAMBDA st : Finished(K, st))
  ELSE \* (a tuple of one-element sets makes TLC find each once)
    Bind(FlattenSeq([i \in 1..Len(S) |-> TLCEval(
           LET cs == SelectSeq(K.al[d + 1], LAMBDA c : Follows(K, S[i], d, c))
           IN [j \in 1..Len(cs) |-> After(K, S[i], cs[j])])]), LAMBDA T : Level_(K, d + 1, T))
Group_(o) == IF o.pends = <<>> THEN {Rounds(o.b)} ELSE Generated(Range(o.pends) \cup {Rounds(o.b)}).g
\* S(i): the changes thought of at change i
SetupIn(o, S(_)) ==
  Bind(MaskOf(o), LAMBDA M :
  Bind(Group_(o), LAMBDA P :
    LET K0 == [P |-> P]
        start == Pad(o.start, o.b)
    IN [ok |-> M.ok /\ ~(Len(o.chs) > 0 /\ ListedSym(o) = {}), o |-> o, L |-> LeadLen(o), lev |-> Level(o), P |-> P, start |-> start,
        avoid |-> {Label(K0, Pad(x, o.b)) : x \in Range(o.avoid)},
        from |-> [i \in 1..Len(o.from) |-> PlacesC(o.b, o.from[i])],
        al |-> IF M.ok THEN [i \in 1..LeadLen(o) |-> TLCEval(InOrder(AllowedIn(o, M, i - 1, S(i - 1))))] ELSE <<>>]))
Setup(o) == SetupIn(o, LAMBDA i : AllC(o.b))
SearchIn(o, S(_)) == Bind(SetupIn(o, S), LAMBDA K :
  IF ~K.ok \/ \E i \in 1..Len(K.al) : K.al[i] = <<>> THEN <<>>
  ELSE Bind(Level_(K, 0, <<[m |-> <<>>, r |-> <<K.start>>, q |-> <<FirstLabel(K)>>]>>), LAMBDA T : [i \in 1..Len(T) |-> T[i].m]))
Search(o) == SearchIn(o, LAMBDA i : AllC(o.b))
\* is m one of them?
Lists(o, m) ==
  /\ Len(o.prefix) <= Len(m) /\ \A i \in 1..Len(o.prefix) : m[i] = PlacesC(o.b, o.prefix[i])
  /\ Len(SearchIn([o EXCEPT !.prefix = [i \in 1..Len(m) |-> Made(m[i])]], LAMBDA i : IF i < Len(m) - 1 THEN {m[i + 1]} ELSE AllC(o.b))) > 0
First(q, k) == IF k = 0 \/ k >= Len(q) THEN q ELSE SubSeq(q, 1, k)   \* a list cut short by a limit (0: none)
MText(m) == JoinWith([i \in 1..Len(m) |-> CText(m[i])], ".")
=============================================================================
