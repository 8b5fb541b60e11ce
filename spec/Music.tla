-------------------------------- MODULE Music --------------------------------
(* Music: a list of patterns over rows, each with a score at handstroke and one
   at backstroke.  A pattern is a sequence of bells, "?" (any one bell), "[..]"
   (any one of these bells) and "*" (any run of bells).  A pattern without "*"
   describes how a row begins.                                               *)
EXTENDS Perm

PatSyms(cs) == {i \in 1..Len(cs) : SymIndex(cs[i]) > 0}
\* Lexing: a sequence of tokens [k |-> "any" | "star" | "set", s |-> bells]
RECURSIVE LexPat(_, _, _, _)
LexPat(cs, i, open, acc) ==
  IF i > Len(cs) THEN [ok |-> ~open, toks |-> acc]
  ELSE LET c == cs[i] b == SymIndex(c) IN
    IF open THEN
      IF c = "]" THEN LexPat(cs, i + 1, FALSE, acc)
      ELSE IF b > 0 THEN LexPat(cs, i + 1, TRUE, [acc EXCEPT ![Len(acc)].s = @ \cup {b}])
      ELSE [ok |-> FALSE, toks |-> acc]
    ELSE IF c = "?" THEN LexPat(cs, i + 1, FALSE, Append(acc, [k |-> "any", s |-> {}]))
    ELSE IF c = "*" THEN LexPat(cs, i + 1, FALSE, Append(acc, [k |-> "star", s |-> {}]))
    ELSE IF c = "[" THEN LexPat(cs, i + 1, TRUE, Append(acc, [k |-> "set", s |-> {}]))
    ELSE IF b > 0 THEN LexPat(cs, i + 1, FALSE, Append(acc, [k |-> "set", s |-> {b}]))
    ELSE [ok |-> FALSE, toks |-> acc]
ReadPat(t) == LexPat(Chars(t), 1, FALSE, <<>>)
InStage(t, n) == LET cs == Chars(t) IN \A i \in PatSyms(cs) : SymIndex(cs[i]) <= n
HasStar(p) == \E i \in 1..Len(p) : p[i].k = "star"

\* Does the pattern from token i describe the row from place j + 1 ?
RECURSIVE MatchFrom(_, _, _, _, _)
MatchFrom(p, r, star, i, j) ==
  IF i > Len(p) THEN ~star \/ j = Len(r)
  ELSE IF p[i].k = "star" THEN \E k \in j..Len(r) : MatchFrom(p, r, star, i + 1, k)
  ELSE j < Len(r) /\ (p[i].k = "any" \/ r[j + 1] \in p[i].s) /\ MatchFrom(p, r, star, i + 1, j + 1)
Matches(p, r) == MatchFrom(p, r, HasStar(p), 1, 0)
\* The bells that can have met the wildcards of the pattern
RECURSIVE WildFrom(_, _, _, _, _)
WildFrom(p, r, star, i, j) ==
  IF i > Len(p) THEN IF star THEN IF j = Len(r) THEN {<<>>} ELSE {} ELSE {SubSeq(r, j + 1, Len(r))}
  ELSE IF p[i].k = "star" THEN UNION {{SubSeq(r, j + 1, k) \o w : w \in WildFrom(p, r, star, i + 1, k)} : k \in j..Len(r)}
  ELSE IF j >= Len(r) THEN {}
  ELSE IF p[i].k = "any" THEN {<<r[j + 1]>> \o w : w \in WildFrom(p, r, star, i + 1, j + 1)}
  ELSE IF r[j + 1] \in p[i].s /\ Cardinality(p[i].s) > 0 THEN WildFrom(p, r, star, i + 1, j + 1)
  ELSE {}
Wilds(p, r) == WildFrom(p, r, HasStar(p), 1, 0)

\* How many rows on n bells the pattern describes
RECURSIVE Fact(_)
Fact(k) == IF k <= 1 THEN 1 ELSE k * Fact(k - 1)
Simple(p) == /\ Cardinality({i \in 1..Len(p) : p[i].k = "star"}) <= 1
             /\ \A i \in 1..Len(p) : p[i].k = "set" => Cardinality(p[i].s) = 1
CountSimple(p, n) ==
  LET F == {i \in 1..Len(p) : p[i].k = "set"}
      m == Cardinality({i \in 1..Len(p) : p[i].k # "star"})
  IN IF m > n \/ \E i, j \in F : i < j /\ p[i].s = p[j].s THEN 0
     ELSE IF UNION {p[i].s : i \in F} \subseteq 1..n THEN Fact(n - Cardinality(F)) ELSE 0
\* As an automaton reading the row place by place: Q holds the tokens that may come next
Closure(p, Q) == LET RECURSIVE Cl(_)
                     Cl(S) == LET T == S \cup {i + 1 : i \in {x \in S : x <= Len(p) /\ p[x].k = "star"}} IN IF T = S THEN S ELSE Cl(T)
                 IN Cl(Q)
StepOn(p, Q, b) == Closure(p, {i \in Q : i <= Len(p) /\ p[i].k = "star"}
                              \cup {i + 1 : i \in {x \in Q : x <= Len(p) /\ (p[x].k = "any" \/ (p[x].k = "set" /\ b \in p[x].s))}})
RECURSIVE CountFrom(_, _, _, _)
CountFrom(p, star, Q, left) ==
  IF Q = {} THEN 0
  ELSE IF ~star /\ Len(p) + 1 \in Q THEN Fact(Cardinality(left))
  ELSE IF left = {} THEN IF Len(p) + 1 \in Q THEN 1 ELSE 0
  ELSE LET RECURSIVE Sum(_)
           Sum(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN
                       (CHOOSE v \in {CountFrom(p, star, StepOn(p, Q, b), left \ {b})} : TRUE) + Sum(S \ {b})
       IN Sum(left)
Possible(p, n) == IF Simple(p) THEN CountSimple(p, n) ELSE CountFrom(p, HasStar(p), Closure(p, {1}), 1..n)

\* ---- named music -----------------------------------------------------------------
RECURSIVE TextFrom(_)
TextFrom(q) == IF q = <<>> THEN "" ELSE BellText(q[1]) \o TextFrom(Tail(q))
Up(a, b) == [i \in 1..Max2(0, b - a + 1) |-> a + i - 1]
CRUs(n) == IF n < 6 THEN <<>> ELSE
  LET P == <<<<4, 5>>, <<4, 6>>, <<5, 4>>, <<5, 6>>, <<6, 4>>, <<6, 5>>>> IN
  [k \in 1..6 |-> "*" \o TextFrom(P[k] \o Up(7, n))]
Runs(n, k, front, back, dir) ==
  LET T(q) == (IF front THEN "" ELSE "*") \o TextFrom(q) \o (IF back THEN "" ELSE "*")
      up == [i \in 1..(n - k + 1) |-> T(Up(i, i + k - 1))]
      down == [i \in 1..(n - k + 1) |-> T([j \in 1..k |-> i + k - j])]
  IN (IF dir >= 0 THEN up ELSE <<>>) \o (IF dir <= 0 THEN down ELSE <<>>)
IsPrefixOf(a, t) == Len(t) >= Len(a) /\ SubSeq(t, 1, Len(a)) = a
\* the decimal number at the start of a sequence of characters: <<value, next>>
RECURSIVE NumAt(_, _, _)
NumAt(cs, i, v) == IF i > Len(cs) \/ DigitVal(cs[i]) < 0 THEN <<v, i>> ELSE NumAt(cs, i + 1, Min2(v * 10 + DigitVal(cs[i]), 1000000))
RunLen(t) == LET cs == Chars(t) m == NumAt(cs, 1, 0) IN
  IF m[2] > 1 /\ SubSeq(t, m[2], Len(t)) = "-runs" THEN m[1] ELSE 0
Refuse == [ok |-> FALSE, pats |-> <<>>]
NamedRuns(n, t, front, back) == LET k == RunLen(t) IN
  IF k < 3 \/ k > n THEN Refuse ELSE [ok |-> TRUE, pats |-> Runs(n, k, front, back, 0)]
Named(n, t) ==
  IF t = "rounds" THEN [ok |-> TRUE, pats |-> <<TextFrom(Rounds(n))>>]
  ELSE IF t = "queens" THEN [ok |-> TRUE, pats |-> <<TextFrom(Queens(n))>>]
  ELSE IF t = "kings" THEN [ok |-> TRUE, pats |-> <<TextFrom(Kings(n))>>]
  ELSE IF t = "tittums" THEN [ok |-> TRUE, pats |-> <<TextFrom(Tittums(n))>>]
  ELSE IF t = "reverse-rounds" THEN [ok |-> TRUE, pats |-> <<TextFrom(Backrounds(n))>>]
  ELSE IF t = "CRUs" THEN [ok |-> TRUE, pats |-> CRUs(n)]
  ELSE IF IsPrefixOf("front-", t) THEN NamedRuns(n, SubSeq(t, 7, Len(t)), TRUE, FALSE)
  ELSE IF IsPrefixOf("back-", t) THEN NamedRuns(n, SubSeq(t, 6, Len(t)), FALSE, TRUE)
  ELSE NamedRuns(n, t, FALSE, FALSE)

\* ---- scored patterns: [ scoreh [ "," scoreb ] ":" ] ( "<" name ">" | pattern ) -----
Signed(cs, i) == \* <<ok, value, next>>
  IF i > Len(cs) THEN <<FALSE, 0, i>>
  ELSE LET sg == cs[i] \in {"+", "-"} m == NumAt(cs, IF sg THEN i + 1 ELSE i, 0) IN
       <<m[2] > (IF sg THEN i + 1 ELSE i), IF cs[i] = "-" THEN -m[1] ELSE m[1], m[2]>>
Scored(t) ==   \* [h, b, rest]
  LET cs == Chars(t)  a == Signed(cs, 1)
      plain == [h |-> 1, b |-> 1, rest |-> t]
      From(i) == SubSeq(t, i, Len(t))
  IN IF Len(cs) <= 2 \/ ~a[1] \/ a[3] > Len(cs) THEN plain
     ELSE IF cs[a[3]] = ":" THEN [h |-> a[2], b |-> a[2], rest |-> From(a[3] + 1)]
     ELSE IF cs[a[3]] = "," THEN
       LET c == Signed(cs, a[3] + 1) IN
       IF c[1] /\ c[3] <= Len(cs) /\ cs[c[3]] = ":" THEN [h |-> a[2], b |-> c[2], rest |-> From(c[3] + 1)] ELSE plain
     ELSE plain
GoodPat(t, n) == ReadPat(t).ok /\ (n = 0 \/ InStage(t, n))
\* [ok, add : the entries to append]
ScoredMusic(n, t) ==
  LET sc == Scored(t)  m == Len(sc.rest)
      P(q) == [i \in 1..Len(q) |-> [t |-> q[i], h |-> sc.h, b |-> sc.b]]
  IN IF m > 2 /\ SubSeq(sc.rest, 1, 1) = "<" /\ SubSeq(sc.rest, m, m) = ">"
     THEN LET x == Named(n, SubSeq(sc.rest, 2, m - 1)) IN [ok |-> x.ok, add |-> P(x.pats)]
     ELSE [ok |-> GoodPat(sc.rest, n), add |-> IF GoodPat(sc.rest, n) THEN P(<<sc.rest>>) ELSE <<>>]

\* ---- the counters -------------------------------------------------------------------
\* An entry: text, tokens, scores, counts at hand and back
Entry(x) == [t |-> x.t, p |-> ReadPat(x.t).toks, h |-> x.h, b |-> x.b, ch |-> 0, cb |-> 0]
Rung(mus, r, back) == [i \in 1..Len(mus) |->
  IF Matches(mus[i].p, r) THEN IF back THEN [mus[i] EXCEPT !.cb = @ + 1] ELSE [mus[i] EXCEPT !.ch = @ + 1] ELSE mus[i]]
Cleared(mus) == [i \in 1..Len(mus) |-> [mus[i] EXCEPT !.ch = 0, !.cb = 0]]
SumSeq(q) == LET RECURSIVE S(_) S(i) == IF i > Len(q) THEN 0 ELSE q[i] + S(i + 1) IN S(1)
ScoreH(mus) == SumSeq([i \in 1..Len(mus) |-> mus[i].ch * mus[i].h])
ScoreB(mus) == SumSeq([i \in 1..Len(mus) |-> mus[i].cb * mus[i].b])
CountH(mus) == SumSeq([i \in 1..Len(mus) |-> mus[i].ch])
CountB(mus) == SumSeq([i \in 1..Len(mus) |-> mus[i].cb])
=============================================================================
