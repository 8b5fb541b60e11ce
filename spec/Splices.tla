------------------------------ MODULE Splices ------------------------------
(* Splices between methods.  Leads of a and b can be spliced whenever lead heads
   are exchanged for those of a group: the one made by the lead heads f for which
   the lead of b from f has a row in common with the lead of a from rounds.
   A method x is [q |-> changes, name |-> text]; o is a record of options (see
   tools/props/P01.py).                                                        *)
EXTENDS MethFormat
NameOf(o, x) == IF x.name = "" \/ o.pn THEN Format(x.q, SYMMETRY + FULL + DASH) ELSE x.name
Bits(o) == (IF o.inc THEN 1 ELSE IF o.outc THEN 8 ELSE 0) + (IF o.half THEN 4 ELSE 0)
Shared(o, A, B) == Fal!FalseHeads(A, B, Bits(o))
SpliceGroup(o, T) == (IF o.outc THEN Generated({Div(x, y) : x, y \in T}) ELSE Generated(T)).g
Greatest(o) == Fact(o.b - 1) \div (IF o.inc \/ o.outc THEN 2 ELSE 1)
\* is a splice with a group of g lead heads worth telling?
Wanting(o, g) == (o.null \/ g # Greatest(o)) /\ (o.leads = -1 \/ g = 2 * o.leads)
Least1(S) == CHOOSE b \in S : \A c \in S : b <= c
Steady(n, G) == {b \in 2..n : \A r \in G : r[b] = b}
Swapped(n, G) == {p \in (2..n) \X (2..n) : p[1] < p[2] /\ \A r \in G : {r[p[1]], r[p[2]]} = {p[1], p[2]}}
Describe(o, G) ==
  LET g == Cardinality(G) f2 == Fact(o.b - 3) f1 == f2 * (o.b - 2)
      P == Steady(o.b, G) W == Swapped(o.b, G)
      w == CHOOSE p \in W : \A z \in W : p[1] < z[1] \/ (p[1] = z[1] /\ p[2] <= z[2])
  IN ToString(g \div 2) \o "-lead"
     \o (IF g > 2 /\ g \in {f1, f1 \div 2} /\ P # {} THEN " (pivot: " \o BellText(Least1(P)) \o ")" ELSE "")
     \o (IF g > 2 /\ g \in {f2, f2 \div 2} /\ W # {} THEN " (swaps: " \o BellText(w[1]) \o "&" \o BellText(w[2]) \o ")" ELSE "")
\* the splice between a and some rows: "" if there is none to tell of
Splice(o, a, B) == Bind(SpliceGroup(o, Shared(o, Fal!LeadRows(a.q), B)), LAMBDA G : IF Wanting(o, Cardinality(G)) THEN Describe(o, G) ELSE "")
Unalike(o, a, b) == ~o.group /\ o.same /\ a.q[Len(a.q)] # b.q[Len(b.q)]
SpliceOf(o, a, b) == IF Unalike(o, a, b) THEN "" ELSE Splice(o, a, Fal!LeadRows(b.q))

\* ---- sets of methods, in order ---------------------------------------------------
RECURSIVE QLess(_, _, _)
QLess(p, q, i) == IF i > Len(q) THEN FALSE ELSE IF i > Len(p) THEN TRUE
                  ELSE IF p[i] = q[i] THEN QLess(p, q, i + 1) ELSE ChLess(p[i], q[i])
InOrderM(S) == SetToSortSeq(S, LAMBDA x, y : QLess(x.q, y.q, 1))
HasM(S, x) == \E y \in S : y.q = x.q
IntoM(S, x) == IF HasM(S, x) THEN S ELSE S \cup {x}
\* what is known so far: a sequence of [d |-> what kind of splice, s |-> the methods that have it]
KeepS(tab, a, b, d) ==
  LET K == {i \in 1..Len(tab) : tab[i].d = d /\ (HasM(tab[i].s, a) \/ HasM(tab[i].s, b))} IN
  IF K = {} THEN Append(tab, [d |-> d, s |-> IntoM({a}, b)])
  ELSE LET i == Least1(K)
           J == K \ {i}
           S == IntoM(IntoM(tab[i].s, a), b)
           T == S \cup {x \in UNION {tab[j].s : j \in J} : ~HasM(S, x)}
           n == [tab EXCEPT ![i].s = T]
       IN [j \in 1..(Len(tab) - Cardinality(J)) |-> n[CHOOSE k \in (1..Len(tab)) \ J : Cardinality({m \in (1..k) \ J : TRUE}) = j]]
LeadSpliced(tab, x) == \E i \in 1..Len(tab) : tab[i].d = "1-lead" /\ HasM(tab[i].s, x)
\* names in order: numbers by value, then text
DigitC(c) == DigitVal(c) >= 0
RECURSIVE Leading(_, _, _)
Leading(t, i, v) == IF i > Len(t) \/ ~DigitC(SubSeq(t, i, i)) THEN v ELSE Leading(t, i + 1, (10 * v) + DigitVal(SubSeq(t, i, i)))
NameLess(x, y) ==
  LET dx == DigitC(SubSeq(x, 1, 1)) dy == DigitC(SubSeq(y, 1, 1)) IN
  IF dx /\ dy /\ Leading(x, 1, 0) # Leading(y, 1, 0) THEN Leading(x, 1, 0) < Leading(y, 1, 0)
  ELSE IF dx # dy THEN dx ELSE TextLess(x, y)
ByName(o, S) == SetToSortSeq(S, LAMBDA x, y : NameLess(NameOf(o, x), NameOf(o, y)))
Comma(q) == JoinWith(q, ", ")
\* those that have a lead splice with x and the same lead end
Bracket(o, tab, x) ==
  LET I == {i \in 1..Len(tab) : tab[i].d = "1-lead" /\ HasM(tab[i].s, x)}
      S == IF I = {} THEN {} ELSE {y \in tab[Least1(I)].s : y.q[Len(y.q)] = x.q[Len(x.q)]}
  IN IF Cardinality(S) = 1 THEN {} ELSE S
RECURSIVE ListedS(_, _, _, _)
ListedS(o, tab, q, done) ==     \* the methods q, but those of done
  IF q = <<>> THEN <<>>
  ELSE IF HasM(done, q[1]) THEN ListedS(o, tab, Tail(q), done)
  ELSE Bind(Bracket(o, tab, q[1]), LAMBDA L :
    <<IF L = {} THEN NameOf(o, q[1]) ELSE Bind(ByName(o, L), LAMBDA z : "[" \o Comma([i \in 1..Len(z) |-> NameOf(o, z[i])]) \o "]")>>
    \o ListedS(o, tab, Tail(q), done \cup L))
SetText(o, tab, S) == Bind(ByName(o, S), LAMBDA q : Comma(ListedS(o, tab, q, {})))
JustLE(S) == \A x, y \in S : Len(x.q) = Len(y.q) /\ SubSeq(x.q, 1, Len(x.q) - 1) = SubSeq(y.q, 1, Len(y.q) - 1)
EndsOf(S) == SetToSortSeq({x.q[Len(x.q)] : x \in S}, ChLess)
EntryText(o, tab, e) ==
  (IF o.same THEN Bind(EndsOf(e.s), LAMBDA q : JoinWith([i \in 1..Len(q) |-> SetText(o, tab, {x \in e.s : x.q[Len(x.q)] = q[i]})], " / "))
   ELSE SetText(o, tab, e.s)) \o "\t" \o e.d
GroupLines(o, tab) == Bind(SelectSeq(tab, LAMBDA e : ~(o.same /\ JustLE(e.s))), LAMBDA q : [i \in 1..Len(q) |-> EntryText(o, tab, q[i])])

\* ---- a run ------------------------------------------------------------------------
Rows_(S) == Bind(Sorted(S), LAMBDA q : [i \in 1..Len(q) |-> RowText(q[i])])
\* one comparison: st is [tab, out, ok]
Told(o, st, a, bname, d) ==
  IF d = "" \/ o.group \/ o.filter THEN st
  ELSE [st EXCEPT !.out = Append(@, NameOf(o, a) \o (IF o.given # 1 THEN " / " \o bname ELSE "") \o "\t" \o d)]
Compare(o, st, a, b) ==
  IF (o.pf \/ o.pg) /\ Unalike(o, a, b) THEN st
  ELSE IF o.pf \/ o.pg THEN [st EXCEPT !.out = @ \o Bind(Shared(o, Fal!LeadRows(a.q), Fal!LeadRows(b.q)), LAMBDA T : Rows_(IF o.pf THEN T ELSE SpliceGroup(o, T)))]
  ELSE Bind(SpliceOf(o, a, b), LAMBDA d :
    LET x == Told(o, st, a, NameOf(o, b), d) IN
    IF d = "" THEN [x EXCEPT !.ok = FALSE]
    ELSE [x EXCEPT !.ok = TRUE, !.tab = IF o.group \/ o.filter THEN KeepS(@, a, b, d) ELSE @])
RECURSIVE CompareAll(_, _, _, _)
CompareAll(o, st, a, q) == IF q = <<>> THEN st ELSE Bind(Compare(o, st, a, q[1]), LAMBDA x : CompareAll(o, x, a, Tail(q)))
Passed(o, st, x) == IF o.filter /\ st.ok THEN [st EXCEPT !.out = Append(@, Format(x.q, SYMMETRY + FULL + DASH) \o "\t" \o x.name)] ELSE st
RECURSIVE RunS(_, _, _, _, _, _)
RunS(o, ms, i, known, meths, st) ==
  IF i > Len(ms) THEN st
  ELSE LET a == ms[i] IN
    IF o.userows THEN
      Bind(IF o.pf \/ o.pg THEN [st EXCEPT !.out = @ \o Bind(Shared(o, Fal!LeadRows(a.q), o.rows), LAMBDA T : Rows_(IF o.pf THEN T ELSE SpliceGroup(o, T)))]
           ELSE Told(o, st, a, "", Splice(o, a, o.rows)), LAMBDA x : RunS(o, ms, i + 1, known, meths, x))
    ELSE IF o.given = 1 THEN
      Bind(IF a.q = known.q THEN [st EXCEPT !.ok = FALSE] ELSE Compare(o, [st EXCEPT !.ok = FALSE], a, known), LAMBDA x : RunS(o, ms, i + 1, known, meths, Passed(o, x, a)))
    ELSE Bind(CompareAll(o, st, a, InOrderM(meths)), LAMBDA x :
      RunS(o, ms, i + 1, known, IntoM(meths, a), Passed(o, [x EXCEPT !.ok = ~LeadSpliced(x.tab, a)], a)))
Given2(o) == LET q == Lib!Lite(o.lines, o.b, FALSE, <<>>) IN
  [i \in 1..Len(q) |-> [q |-> ParsePN(q[i].b, Chars(q[i].pn)).chs, name |-> q[i].f.payload[1]]]
OnLine(o) == [i \in 1..Len(o.meths) |-> [q |-> ParsePN(o.b, Chars(o.meths[i])).chs, name |-> "Method " \o ToString(i)]]
\* what is written, line by line
SplicesOut(o) == Bind(OnLine(o), LAMBDA ml :
  Bind(IF o.stdinrows \/ Len(ml) >= 2 THEN InOrderM(IF Len(ml) = 2 THEN IntoM({ml[1]}, ml[2]) ELSE Range(ml)) ELSE Given2(o), LAMBDA ms :
  Bind(RunS(o, ms, 1, IF ml = <<>> THEN [q |-> <<>>, name |-> ""] ELSE ml[1], {}, [tab |-> <<>>, out |-> <<>>, ok |-> FALSE]), LAMBDA st :
    st.out \o (IF o.group THEN GroupLines(o, st.tab) ELSE <<>>))))
=============================================================================
