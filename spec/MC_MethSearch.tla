---------------------------- MODULE MC_MethSearch ----------------------------
(* Searching, against looking at every method there is.  The requirements are
   stated again, about whole methods and without reference to searching.        *)
EXTENDS MethSearch
CONSTANTS DEPTH, BASES
VARIABLES o, k

Plain == [b |-> 4, U |-> 1, G |-> 0, front |-> 1, back |-> 4, n |-> 0, p |-> 0, l |-> 0, j |-> 0, w |-> FALSE, f |-> FALSE, y |-> FALSE, ll |-> FALSE,
          fl |-> <<>>, N |-> 1, start |-> <<>>, pends |-> <<>>, avoid |-> <<>>, chs |-> <<>>, chinc |-> TRUE, kf |-> FALSE, ky |-> FALSE,
          mask |-> <<[a |-> [sym |-> FALSE, items |-> <<[k |-> "star", alts |-> <<>>]>>], b |-> [sym |-> FALSE, items |-> <<[k |-> "star", alts |-> <<>>]>>]]>>,
          sym |-> <<>>, mirror |-> FALSE, floating |-> FALSE, P |-> FALSE, cls |-> "", e |-> FALSE, E |-> FALSE, A |-> TRUE, lh |-> "", hl |-> <<>>,
          offset |-> FALSE, points |-> <<>>, prefix |-> <<>>, from |-> <<>>]
On(n, U, G) == [Plain EXCEPT !.b = n, !.back = n, !.U = U, !.G = G]
Prin(n, len) == [Plain EXCEPT !.b = n, !.back = n, !.U = 0, !.n = len]
Base(x) == CASE x = 1 -> On(4, 1, 0) [] x = 2 -> Prin(4, 4) [] x = 3 -> Prin(3, 4) [] x = 4 -> On(5, 2, 0) [] x = 5 -> Prin(5, 2) [] x = 6 -> On(3, 1, 0)
             [] x = 7 -> [On(4, 1, 0) EXCEPT !.front = 2, !.back = 3] [] x = 8 -> [On(5, 1, 0) EXCEPT !.back = 3] [] x = 9 -> [On(4, 1, 1) EXCEPT !.sym = <<"s">>, !.j = 3]
             [] x = 10 -> Prin(4, 3) [] x = 11 -> [On(6, 1, 0) EXCEPT !.sym = <<"s">>, !.w = TRUE, !.p = 2, !.l = 2] [] OTHER -> Prin(3, 6)
Alts(q) == [k |-> "alts", alts |-> q]
Side(sym, q) == [sym |-> sym, items |-> q]
Star == [k |-> "star", alts |-> <<>>]
Tweaks(x) ==
  {[x EXCEPT !.p = v] : v \in 2..3} \cup {[x EXCEPT !.l = v] : v \in 1..2} \cup {[x EXCEPT !.j = 1], [x EXCEPT !.f = TRUE], [x EXCEPT !.y = TRUE], [x EXCEPT !.A = FALSE]}
  \cup (IF x.U > 0 \/ x.b % 2 = 0 THEN {[x EXCEPT !.w = TRUE]} ELSE {})
  \cup (IF x.p > 0 THEN {[x EXCEPT !.ll = TRUE]} ELSE {})
  \cup (IF LeadLen(x) % 2 = 0 THEN {[x EXCEPT !.sym = <<"s">>]} ELSE {})
  \cup (IF LeadLen(x) % 2 = 0 /\ x.b - x.back = x.front - 1 THEN {[x EXCEPT !.sym = q] : q \in {<<"k">>, <<"d">>, <<"s", "k">>}} ELSE {})
  \cup (IF x.b - x.back = x.front - 1 THEN {[x EXCEPT !.mirror = TRUE]} ELSE {})
  \cup (IF x.sym # <<>> /\ x.U = 0 THEN {[x EXCEPT !.floating = TRUE]} ELSE {})
  \cup {[x EXCEPT !.fl = <<v>>] : v \in {"c", "h", "n", "x"}} \cup {[x EXCEPT !.N = 2]}
  \cup {[x EXCEPT !.points = <<v>>] : v \in {"np", "hu"}}
  \cup {[x EXCEPT !.chs = <<<<1, x.b>>, <<>>>>, !.chinc = v] : v \in (IF x.b % 2 = 0 THEN {TRUE, FALSE} ELSE {})}
  \cup (IF x.fl # <<"n">> /\ x.fl # <<"x">> THEN {[x EXCEPT !.pends = <<Pad(<<2, 1>>, x.b)>>]} ELSE {})
  \cup (IF x.N = 1 /\ x.U > 0 /\ x.pends = <<>> THEN {[x EXCEPT !.avoid = <<Mul(Pad(x.start, x.b), Pad(<<2, 1, 4, 3>>, Max2(x.b, 4)))>>] : v \in (IF x.b >= 4 THEN {1} ELSE {})} ELSE {})
  \cup (IF x.avoid = <<>> THEN {[x EXCEPT !.start = [i \in 1..x.b |-> x.b + 1 - i]]} ELSE {})
  \cup (IF x.U % 2 = 1 /\ x.b >= 4 THEN {[x EXCEPT !.e = TRUE, !.E = FALSE], [x EXCEPT !.E = TRUE, !.e = FALSE]} ELSE {})
  \cup (IF x.front = 1 THEN {[x EXCEPT !.lh = "c"]} ELSE {})
  \cup (IF x.front = 1 /\ x.U = 1 THEN {[x EXCEPT !.lh = "r"]} ELSE {})
  \cup (IF x.U = 1 /\ x.front = 1 /\ x.back = x.b THEN {[x EXCEPT !.hl = <<"rh", "ch">>]} ELSE {})
  \cup (IF x.b % 2 = 0 THEN {[x EXCEPT !.from = <<<<>>, <<1, x.b>>>>], [x EXCEPT !.prefix = <<<<>>>>]} ELSE {})
  \cup (IF x.U > 0 /\ x.b % 2 = 0 /\ LeadLen(x) >= 4 /\ x.front = 1 THEN
          {[x EXCEPT !.mask = <<[a |-> Side(TRUE, <<Alts(<<<<>>>>), Star>>), b |-> Side(TRUE, <<Alts(<<<<>>>>), Star>>)], [a |-> Side(FALSE, <<AnyItem>>), b |-> Side(FALSE, <<AnyItem>>)]>>]} ELSE {})
  \cup (IF (x.back - x.front) % 2 = 1 /\ x.U > 0 /\ x.back - x.front >= 3 THEN {[x EXCEPT !.cls = v] : v \in {"S", "T", "D"}} ELSE {})
  \cup (IF x.sym = <<"s">> /\ x.G % 2 = 1 THEN {[x EXCEPT !.P = TRUE]} ELSE {})
Full(x) == [x EXCEPT !.p = Min2(x.p, 2 * LeadLen(x) - 1)]

\* ---- all the methods -----------------------------------------------------------
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN {<<>>} ELSE {Append(m, c) : m \in Prod(SubSeq(q, 1, Len(q) - 1)), c \in Range(q[Len(q)])}
RowsOf(K, m) == CHOOSE y \in {TLCEval(FoldLeft(LAMBDA q, c : Append(q, Mul(q[Len(q)], c)), <<K.start>>, m))} : TRUE
Place(K, m, p, i) == LET x == ((i - 1) % K.L) + 1 IN m[x][p] = p /\ x # StopAt(K)
Blows(K, m) == K.o.p > 0 /\ K.L > 1 => ~\E p \in 1..K.o.b : \E i \in 1..K.L : \A x \in i..(i + K.o.p - 1) : Place(K, m, p, x)
Symmetric(K, m) == \A x \in Syms(K.o) : IF K.o.floating THEN HasSym(m, x) ELSE \A i \in 0..(K.L - 1) : m[Image(K.o, x, i) + 1] = Rel(x, m[i + 1])
Sections_(K, m) == K.o.U = 0 \/ \A s \in 0..((K.L \div DivLen(K.o)) - 1) : LET D == DivLen(K.o) at(j) == m[s * D + j + 1] IN
   /\ K.o.y => \A j \in 0..(D - 2) : at(j) = at(D - 2 - j)
   /\ K.o.P => \A q \in Exactly(Parities([j \in 1..(D - 1) |-> at(j - 1)], <<1>>)) : \A x \in {0, 1} :
        Cardinality({i \in 1..Len(q) : i % 2 = x /\ q[i] = 1}) = Cardinality({i \in 1..Len(q) : i % 2 = x /\ q[i] = -1})
Structure(K, m) == \E r \in Exactly(RowsOf(K, m)) :
  /\ \A i \in 1..K.L : m[i] \in Range(K.al[i])
  /\ Symmetric(K, m) /\ Blows(K, m) /\ Sections_(K, m)
  /\ Trivial_(K.o) \/ K.L = 1 \/ \A i \in 1..K.L : m[i] # m[(i % K.L) + 1]
  /\ \E h \in Exactly(Mul(Inv(K.start), r[K.L \div 2])) : HalfFits(K.o, h, Mul(h, m[K.L \div 2]))
  /\ StructWhole(K, m, Mul(Inv(K.start), r[K.L + 1]))
Meets(K, m) ==
  /\ SubSeq(m, 1, Len(K.o.prefix)) = [i \in 1..Len(K.o.prefix) |-> PlacesC(K.o.b, K.o.prefix[i])]
  /\ Structure(K, m) /\ TrueMethod(K, RowsOf(K, m)) /\ ~MBefore(m, K.from)
  /\ K.o.E /\ ~LimitedLE(K.o, m[K.L]) => \A c \in {PlacesC(K.o.b, <<1>>), PlacesC(K.o.b, <<1, K.o.U + 1>>)} : ~Structure(K, [m EXCEPT ![K.L] = c])
Right == \E K \in {Setup(o)} :
  LET found == Search(o) IN \E f \in {found} :
    /\ \A i \in 1..(Len(f) - 1) : MBefore(f[i], f[i + 1])
    /\ Range(f) = IF K.ok /\ \A i \in 1..K.L : K.al[i] # <<>> THEN {m \in Prod(K.al) : Meets(K, m)} ELSE {}
    \* of the nature asked for
    /\ \A m \in Range(f) : \A x \in Syms(o) : HasSym(m, x)
    /\ o.mirror => \A m \in Range(f) : HasSym(m, "m")
    /\ o.U > 0 => \A m \in Range(f) : \A t \in 0..(Len(m) - 1) : HuntsRight(o, t, m[t + 1])

\* The numbers of methods that have been published
A5(U) == On(5, U, 0)
Sy(x, q) == [x EXCEPT !.sym = q]
Known == {<<On(4, 1, 0), 48>>, <<Sy(On(4, 1, 0), <<"s">>), 16>>, <<Sy(On(4, 1, 0), <<"d">>), 6>>, <<Sy(On(4, 1, 0), <<"s", "k", "d">>), 4>>,
          <<On(4, 2, 0), 4>>, <<Sy(On(4, 2, 0), <<"k">>), 2>>, <<Sy(A5(1), <<"s">>), 576>>, <<Sy(A5(1), <<"s", "d">>), 24>>,
          <<A5(2), 144>>, <<Sy(A5(2), <<"s">>), 36>>, <<Sy(A5(2), <<"k">>), 12>>, <<Sy(A5(2), <<"d">>), 12>>, <<Sy(A5(2), <<"s", "k">>), 6>>,
          <<Sy(On(6, 2, 0), <<"s">>), 900>>, <<Sy(On(6, 2, 0), <<"d">>), 180>>, <<Sy(On(6, 2, 0), <<"k", "d">>), 30>>,
          <<[Sy(On(6, 1, 0), <<"s", "d">>) EXCEPT !.A = FALSE], 63>>, <<[Sy(On(6, 1, 1), <<"s", "d">>) EXCEPT !.A = FALSE, !.y = TRUE, !.p = 2], 33>>,
          <<[Sy(On(6, 2, 1), <<"s">>) EXCEPT !.p = 2], 262>>, <<[Sy(On(6, 2, 1), <<"d">>) EXCEPT !.p = 2], 54>>, <<[Sy(On(6, 2, 1), <<"s", "k">>) EXCEPT !.p = 2], 15>>}
Published == k = -1 => \E x \in Known : x[1] = o /\ Len(Search([o EXCEPT !.kf = TRUE, !.ky = TRUE])) = x[2]
Exact == k >= 0 => Right

Init == o = Plain /\ k = -2
Next == \/ k = -2 /\ \/ \E x \in BASES : o' = Base(x) /\ k' = 0
                     \/ \E x \in Known : o' = x[1] /\ k' = -1
        \/ k >= 0 /\ k < DEPTH /\ \E x \in Tweaks(o) : o' = Full(x) /\ o' # o /\ k' = k + 1
Spec == Init /\ [][Next]_<<o, k>>
==============================================================================
