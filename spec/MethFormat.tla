----------------------------- MODULE MethFormat -----------------------------
(* What methsearch writes about the methods it finds: formats with variables,
   escapes and expressions, requirements (-Q), statistics (-H) and counts.     *)
EXTENDS MethFilter
Mus == INSTANCE Music
Fal == INSTANCE Falseness
RC == INSTANCE Rowcalc

\* ---- values: integers, strings, and what ends an evaluation -------------------
Value(k, i, s) == [k |-> k, i |-> i, s |-> s]
Num(i) == Value("int", i, "")
Txt(s) == Value("str", 0, s)
Error == Value("error", 0, "")
Suppress == Value("suppress", 0, "")
Abort == Value("abort", 0, "")
Ended(v) == v.k \in {"error", "suppress", "abort"}
IsNumeral(s) == LET cs == Chars(s) d == IF cs # <<>> /\ cs[1] \in {"+", "-"} THEN 2 ELSE 1 IN
  Len(cs) >= d /\ Len(cs) < d + 9 /\ \A i \in d..Len(cs) : DigitVal(cs[i]) >= 0
RECURSIVE Digs(_, _, _)
Digs(cs, i, v) == IF i > Len(cs) THEN v ELSE Digs(cs, i + 1, (v * 10) + DigitVal(cs[i]))
Numeral(s) == LET c == SubSeq(s, 1, 1) IN
  IF c = "-" THEN 0 - Digs(Chars(s), 2, 0) ELSE IF c = "+" THEN Digs(Chars(s), 2, 0) ELSE Digs(Chars(s), 1, 0)
AsInt(v) == IF v.k # "str" THEN v ELSE IF IsNumeral(v.s) THEN Num(Numeral(v.s)) ELSE Error
AsText(v) == IF v.k = "int" THEN Txt(ToString(v.i)) ELSE v
Quot(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Truth(b) == Num(IF b THEN 1 ELSE 0)
\* text sorts by its characters
Ascii == "\t\n\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharNo == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]
TextLess(s, t) ==
  LET k == Min2(Len(s), Len(t))
      D == {i \in 1..k : SubSeq(s, i, i) # SubSeq(t, i, i)}
  IN IF D = {} THEN Len(s) < Len(t)
     ELSE LET i == CHOOSE x \in D : \A y \in D : x <= y IN CharNo[SubSeq(s, i, i)] < CharNo[SubSeq(t, i, i)]
Padded(s, w) == ConcatAll([i \in 1..Max2(0, w - Len(s)) |-> " "]) \o s

\* ---- facts about a method ---------------------------------------------------------
\* x is a record: m the method as rows, q as changes, b its stage, payload, num, fl
\* (how place notation is written) and mus (the -M options)
Verbose == DOTS + EXTERNAL + UCROSS
Portion(x, f, n, n2) ==
  IF n = 0 THEN Txt(Format(x.q, f))
  ELSE LET e == IF n2 = 0 THEN n ELSE n2 IN
       IF n > Len(x.q) \/ e > Len(x.q) \/ e < n THEN Error ELSE Txt(Format(SubSeq(x.q, n, e), f))
PathText(x, b) == RowText([t \in 1..(Len(x.q) + 1) |-> Pos(RowAfter(x.q, t - 1), b)])
\* the coursing order, raised to the first power in which the tenors course
RECURSIVE Around(_, _, _)
Around(r, b, last) == IF b = last THEN <<b>> ELSE <<b>> \o Around(r, r[b], last)
Coursing(x) ==
  LET lh == LeadHead(x.q)
      K == {k \in 1..x.b : PowNat(lh, k)[x.b] = x.b - 1}
  IN IF K = {} THEN Error
     ELSE LET k == CHOOSE i \in K : \A j \in K : i <= j IN Txt(RowText(Around(PowNat(lh, k), x.b - 1, x.b)))
\* each blow a pair of bells stays together, after the first
Gathered(c, p) == c[p] = p + 1 \/ (c[p] = p /\ c[p + 1] = p + 1)
Staticity(x) ==
  IF \E p \in 1..(x.b - 1) : \A i \in 1..Len(x.m) : Gathered(x.m[i], p) THEN "18446744073709551615"
  ELSE ToString(Cardinality({s \in (1..Len(x.m)) \X (1..(x.b - 1)) : Gathered(x.m[s[1]], s[2]) /\ Gathered(x.m[(s[1] % Len(x.m)) + 1], s[2])}))
TreblePlaces(x, i) == {Pos(RowAfter(x.q, i - 1), 1), Pos(RowAfter(x.q, i), 1)}
TrebleLow(x, i) == CHOOSE p \in TreblePlaces(x, i) : \A k \in TreblePlaces(x, i) : p <= k
TrebleHigh(x, i) == CHOOSE p \in TreblePlaces(x, i) : \A k \in TreblePlaces(x, i) : p >= k
\* the places above and below the treble, with those implied at lead and behind
OverChange(x, i) == LET a == TrebleLow(x, i) IN
  FromPlaces(x.b, SetToSortSeq({p \in a..x.b : x.m[i][p] = p} \cup (IF a % 2 = 0 THEN {1} ELSE {}), <)).c
UnderChange(x, i) == LET z == TrebleHigh(x, i) IN
  FromPlaces(x.b, SetToSortSeq({p \in 1..z : x.m[i][p] = p} \cup (IF (x.b - z) % 2 = 1 THEN {x.b} ELSE {}), <)).c
\* the traditional lead head codes: lead end, lead head, code
Old5 == << <<13254, 13524, "A">>, <<14523, 14253, "B">>, <<15342, 13524, "C">>, <<12435, 14253, "D">>, <<12543, 15234, "E">>,
           <<14325, 13452, "F">>, <<12354, 12534, "G">>, <<13245, 13425, "H">>, <<14325, 14235, "J">>, <<12543, 12453, "K">>,
           <<15432, 15423, "Q">>, <<14523, 14532, "R">>, <<12435, 12453, "S">>, <<12543, 12534, "T">>, <<14325, 14352, "U">>,
           <<15342, 15324, "V">>, <<14523, 15423, "M">>, <<15432, 14532, "N">>, <<12435, 14235, "W">>, <<14325, 13425, "X">>,
           <<12543, 15243, "Y">>, <<15342, 13542, "Z">> >>
\* lead head, the places of the last change, code
Old6 == << <<135264, "12", "G">>, <<156342, "12", "H">>, <<164523, "12", "J">>, <<142635, "12", "K">>,
           <<135264, "16", "L">>, <<156342, "16", "M">>, <<164523, "16", "N">>, <<142635, "16", "O">>,
           <<142563, "12", "P">>, <<154632, "12", "S">>, <<165324, "12", "R">>, <<136245, "12", "Q">>,
           <<152364, "16", "T">>, <<165243, "16", "V">>, <<146532, "16", "U">>, <<134625, "16", "W">>,
           <<145362, "14", "X">>, <<162534, "14", "Y">> >>
OldCode(x) ==
  LET lh == RowText(LeadHead(x.q))
      le == RowText(RowAfter(x.q, Len(x.q) - 1))
      S == IF x.b = 5 THEN {Old5[i][3] : i \in {j \in 1..Len(Old5) : ToString(Old5[j][1]) = le /\ ToString(Old5[j][2]) = lh}}
           ELSE IF x.b = 6 THEN {Old6[i][3] : i \in {j \in 1..Len(Old6) : ToString(Old6[j][1]) = lh /\ Old6[j][2] = RowText(Made(x.m[Len(x.m)]))}}
           ELSE {}
  IN IF S = {} THEN "?" ELSE CHOOSE c \in S : TRUE
SymText(m) == (IF HasSym(m, "s") THEN "P" ELSE "") \o (IF \A i \in 1..Len(m) : Flip(m[i]) = m[i] THEN "M" ELSE "")
           \o (IF HasSym(m, "d") THEN "G" ELSE "") \o (IF HasSym(m, "k") THEN "R" ELSE "")

\* ---- music: -M options ------------------------------------------------------------
\* An option: [type, t, toks, given]: what to look at (type a block type, starting from each row of
\* the row expression toks, if given), or a pattern t (type "")
BlockTypes == {"course", "lead", "halflead", "2halflead", "rhalflead", "2rhalflead"}
\* the rows of an expression, on n bells
RowsOf(n, toks) == Bind(RC!Val(RC!Parse(toks, [b |-> n, ch |-> FALSE]).node, <<>>), LAMBDA q : [i \in 1..Len(q) |-> Mul(q[i], Rounds(n))])
\* batches of blocks, each with patterns for all of them
RECURSIVE Batches(_, _, _)
Batches(n, opts, acc) ==
  LET z == acc[Len(acc)] IN
  IF opts = <<>> THEN (IF ~z.had THEN [acc EXCEPT ![Len(acc)].pats = Mus!ScoredMusic(n, "<CRUs>").add] ELSE acc)
  ELSE LET t == Head(opts) IN
    IF t.type \in BlockTypes
    THEN LET last == IF z.blocks = <<>> THEN Rounds(n) ELSE z.blocks[Len(z.blocks)].row
             new == IF t.given THEN Bind(RowsOf(n, t.toks), LAMBDA q : [i \in 1..Len(q) |-> [type |-> t.type, row |-> q[i]]]) ELSE <<[type |-> t.type, row |-> last]>>
         IN IF ~z.had /\ ~z.implied THEN Batches(n, Tail(opts), [acc EXCEPT ![Len(acc)].blocks = @ \o new])
            ELSE Batches(n, Tail(opts), Append(IF z.had THEN acc ELSE <<>>, [blocks |-> new, pats |-> <<>>, had |-> FALSE, implied |-> FALSE]))
    ELSE Batches(n, Tail(opts), [acc EXCEPT ![Len(acc)].pats = @ \o Mus!ScoredMusic(n, t.t).add, ![Len(acc)].had = TRUE])
FirstBatch(n) == <<[blocks |-> <<[type |-> "course", row |-> Rounds(n)]>>, pats |-> <<>>, had |-> FALSE, implied |-> TRUE]>>
\* the rows of a block, each with the number of the row in the lead (0: the lead head)
RECURSIVE Onward(_, _, _, _)
Onward(m, r, i, upto) == IF i > upto THEN <<>> ELSE <<[r |-> r, i |-> i]>> \o Onward(m, IF i < upto THEN Mul(r, m[i + 1]) ELSE r, i + 1, upto)
RECURSIVE Back(_, _, _, _)
Back(m, r, i, downto) == IF i < downto THEN <<>> ELSE <<[r |-> r, i |-> i]>> \o Back(m, IF i > downto THEN Mul(r, m[i]) ELSE r, i - 1, downto)
RECURSIVE Course(_, _, _, _)
Course(m, start, r, i) ==
  LET s == TLCEval(Mul(r, m[(i % Len(m)) + 1])) IN
  <<[r |-> s, i |-> i + 1]>> \o (IF (i + 1) % Len(m) = 0 /\ s = start THEN <<>> ELSE Course(m, start, s, i + 1))
BlockRows(m, bl) == LET L == Len(m) h == Len(m) \div 2 IN
  CASE bl.type = "course" -> Course(m, bl.row, bl.row, 0)
    [] bl.type = "lead" -> Onward(m, bl.row, 0, L - 1)
    [] bl.type = "halflead" -> Onward(m, bl.row, 0, h - 1)
    [] bl.type = "2halflead" -> Onward(m, bl.row, h, L - 1)
    [] bl.type = "rhalflead" -> Back(m, bl.row, h - 1, 0)
    [] bl.type = "2rhalflead" -> Back(m, bl.row, L - 1, h)
\* odd rows are rung at handstroke
RowScore(pats, row) == Mus!SumSeq([j \in 1..Len(pats) |-> IF Mus!Matches(pats[j].p, row.r) THEN (IF row.i % 2 = 1 THEN pats[j].h ELSE pats[j].b) ELSE 0])
BatchScore(m, z) ==
  LET pats == TLCEval([j \in 1..Len(z.pats) |-> [p |-> Mus!ReadPat(z.pats[j].t).toks, h |-> z.pats[j].h, b |-> z.pats[j].b]])
  IN Mus!SumSeq([k \in 1..Len(z.blocks) |-> Bind(BlockRows(m, z.blocks[k]), LAMBDA q : Mus!SumSeq([i \in 1..Len(q) |-> RowScore(pats, q[i])]))])
MusicScore(x) == Bind(Batches(x.b, x.mus, FirstBatch(x.b)), LAMBDA B : Mus!SumSeq([k \in 1..Len(B) |-> BatchScore(x.m, B[k])]))

\* ---- variables ----------------------------------------------------------------------
Wide(v, w) == Txt(Padded(ToString(v), w))
Field(x, v, n, n2) ==
  CASE v = "p" -> Portion(x, Verbose, n, n2)
    [] v = "q" -> Portion(x, x.fl, n, n2)
    [] v = "Q" -> Txt(Format(x.q, x.fl + OMITLH))
    [] v = "h" -> IF n > Len(x.q) THEN Error ELSE Txt(CText(x.m[n]))
    [] v = "r" -> IF n > Len(x.q) THEN Error ELSE Txt(RowText(RowAfter(x.q, n)))
    [] v = "l" -> Txt(RowText(LeadHead(x.q)))
    [] v = "L" -> Wide(Len(x.q), n)
    [] v = "b" -> Wide(MaxBlows(x.q), n)
    [] v = "o" -> Wide(Leads(x.q), n)
    [] v = "u" -> Wide(Cardinality(Hunts(x.q)), n)
    [] v = "B" -> Wide(x.b, n)
    [] v = "G" -> Wide(NumCycles(LeadHead(x.q)), n)
    [] v = "d" -> Txt(LHCode(x.q))
    [] v = "D" -> Txt(OldCode(x))
    [] v = "y" -> Txt(SymText(x.m))
    [] v = "C" -> Txt(ClassName(MethClass(x.q, 9999), 9999))
    [] v = "S" -> Txt(StageName(x.b))
    [] v = "M" -> Wide(MusicScore(x), n)
    [] v = "F" -> Txt(Fal!SymbolText(x.q, IF x.b = 8 THEN 0 ELSE 2))
    [] v = "P" -> Txt(PathText(x, n))
    [] v = "O" -> Coursing(x)
    [] v = "V" -> Txt(Format([i \in 1..Len(x.m) |-> OverChange(x, i)], x.fl))
    [] v = "U" -> Txt(Format([i \in 1..Len(x.m) |-> UnderChange(x, i)], x.fl))
    [] v = "s" -> Txt(Padded(Staticity(x), n))
    [] v = "a" -> Txt(x.payload)
    [] v = "#" -> Wide(x.num, n)
    [] v = "c" -> Wide(x.count, n)

\* ---- expressions ----------------------------------------------------------------------
\* Tokens [t, s, n, n2]: "int", "str", "var", "kw" and "op"; loosest operators first
OpLevel(s) ==
  CASE s = "||" -> 1 [] s = "&&" -> 2 [] s = "~~" -> 3 [] s \in {"==", "!=", "eq", "ne"} -> 4
    [] s \in {"<", ">", "<=", ">=", "lt", "gt", "le", "ge"} -> 5 [] s \in {"+", "-", "."} -> 6 [] s \in {"*", "/", "%"} -> 7
    [] OTHER -> 0
Tightest == 7
IsOp(q, j, s) == j <= Len(q) /\ q[j].t = "op" /\ q[j].s = s
Node(s, l, r) == [t |-> "op", s |-> s, l |-> l, r |-> r]
RECURSIVE Seq1(_, _), Seq2(_, _), Cond(_, _), Infix(_, _, _), Rest(_, _, _)
Term(q, j) == IF IsOp(q, j, "(") THEN Bind(Seq1(q, j + 1), LAMBDA p : [e |-> p.e, j |-> p.j + 1]) ELSE [e |-> q[j], j |-> j + 1]
Infix(q, j, lev) == IF lev > Tightest THEN Term(q, j) ELSE Bind(Infix(q, j, lev + 1), LAMBDA p : Rest(q, p, lev))
Rest(q, p, lev) ==
  IF p.j <= Len(q) /\ q[p.j].t = "op" /\ OpLevel(q[p.j].s) = lev
  THEN Bind(Infix(q, p.j + 1, lev + 1), LAMBDA r : Rest(q, [e |-> Node(q[p.j].s, p.e, r.e), j |-> r.j], lev))
  ELSE p
Cond(q, j) == Bind(Infix(q, j, 1), LAMBDA c :
  IF ~IsOp(q, c.j, "?") THEN c
  ELSE Bind(Seq1(q, c.j + 1), LAMBDA a : Bind(Cond(q, a.j + 1), LAMBDA b : [e |-> [t |-> "op", s |-> "?", c |-> c.e, l |-> a.e, r |-> b.e], j |-> b.j])))
Seq2(q, p) == IF IsOp(q, p.j, ",") THEN Bind(Cond(q, p.j + 1), LAMBDA r : Seq2(q, [e |-> Node(",", p.e, r.e), j |-> r.j])) ELSE p
Seq1(q, j) == Bind(Cond(q, j), LAMBDA p : Seq2(q, p))
Parse(q) == Seq1(q, 1).e

Arith(s, a, b) ==
  CASE s = "+" -> Num(a + b) [] s = "-" -> Num(a - b) [] s = "*" -> Num(a * b)
    [] s = "/" -> IF b = 0 THEN Error ELSE Num(Quot(a, b))
    [] s = "%" -> IF b = 0 THEN Error ELSE Num(a - (b * Quot(a, b)))
    [] s = "<" -> Truth(a < b) [] s = ">" -> Truth(a > b) [] s = "<=" -> Truth(a <= b) [] s = ">=" -> Truth(a >= b)
    [] s = "==" -> Truth(a = b) [] s = "!=" -> Truth(a # b)
OnText(x, s, a, b) ==
  CASE s = "." -> Txt(a \o b) [] s = "eq" -> Truth(a = b) [] s = "ne" -> Truth(a # b)
    [] s = "lt" -> Truth(TextLess(a, b)) [] s = "gt" -> Truth(TextLess(b, a))
    [] s = "le" -> Truth(~TextLess(b, a)) [] s = "ge" -> Truth(~TextLess(a, b))
    [] s = "~~" -> Bind(ParseRow(Chars(a)), LAMBDA r :
         IF ~r.ok \/ ~Mus!ReadPat(b).ok THEN Error ELSE Truth(Mus!Matches(Mus!ReadPat(b).toks, r.row)))
TextOps == {".", "eq", "ne", "lt", "gt", "le", "ge", "~~"}
RECURSIVE Eval(_, _)
\* the left hand side first; an ending ends it all
Both(x, e, conv(_), f(_, _)) ==
  Bind(conv(Eval(x, e.l)), LAMBDA a : IF Ended(a) THEN a ELSE Bind(conv(Eval(x, e.r)), LAMBDA b : IF Ended(b) THEN b ELSE f(a, b)))
Eval(x, e) ==
  IF e.t = "int" THEN Num(e.n)
  ELSE IF e.t = "str" THEN Txt(e.s)
  ELSE IF e.t = "var" THEN Field(x, e.s, e.n, e.n2)
  ELSE IF e.t = "kw" THEN (IF e.s = "abort" THEN Abort ELSE Suppress)
  ELSE IF e.s = "," THEN Bind(Eval(x, e.l), LAMBDA a : IF Ended(a) THEN a ELSE Eval(x, e.r))
  ELSE IF e.s = "?" THEN Bind(AsInt(Eval(x, e.c)), LAMBDA c : IF Ended(c) THEN c ELSE Eval(x, IF c.i # 0 THEN e.l ELSE e.r))
  ELSE IF e.s \in {"&&", "||"} THEN Bind(AsInt(Eval(x, e.l)), LAMBDA a :
         IF Ended(a) THEN a ELSE IF (a.i # 0) = (e.s = "||") THEN Truth(a.i # 0)
         ELSE Bind(AsInt(Eval(x, e.r)), LAMBDA b : IF Ended(b) THEN b ELSE Truth(b.i # 0)))
  ELSE IF e.s \in TextOps THEN Both(x, e, AsText, LAMBDA a, b : OnText(x, e.s, a.s, b.s))
  ELSE Both(x, e, AsInt, LAMBDA a, b : Arith(e.s, a.i, b.i))
\* as a requirement: "yes", "no" or "abort"
Requires(x, toks) == Bind(AsInt(Eval(x, Parse(toks))), LAMBDA v :
  IF v.k = "abort" THEN "abort" ELSE IF Ended(v) THEN "no" ELSE IF v.i # 0 THEN "yes" ELSE "no")
RECURSIVE AllRequired(_, _)
AllRequired(x, qs) == IF qs = <<>> THEN "yes" ELSE Bind(Requires(x, Head(qs)), LAMBDA r : IF r = "yes" THEN AllRequired(x, Tail(qs)) ELSE r)

\* ---- formats -----------------------------------------------------------------------------
\* A format [segs, nl]: segments are text, variables and expressions; nl: a line end follows
SegText(x, g) ==
  IF g.k = "lit" THEN Txt(g.s)
  ELSE Bind(IF g.k = "var" THEN Field(x, g.s, g.n, g.n2) ELSE AsText(Eval(x, Parse(g.toks))),
            LAMBDA v : IF v.k = "error" THEN Txt("<ERROR>") ELSE v)
RECURSIVE SegsText(_, _, _)
SegsText(x, gs, acc) == IF gs = <<>> THEN Txt(acc) ELSE Bind(SegText(x, Head(gs)), LAMBDA v : IF Ended(v) THEN v ELSE SegsText(x, Tail(gs), acc \o v.s))
FormatText(x, f) == SegsText(x, f.segs, "")
LineEnd(f) == IF f.nl THEN "\n" ELSE ""

\* ---- the whole output -----------------------------------------------------------------------
\* w: what was asked: o, inv, lines (as for a filter), qs (requirements), fmt and hist (sequences
\* of at most one format), quiet, tally ("", "count" or "raw"), limit, fl, mus
PlainFmt(w) == [segs |-> <<[k |-> "var", s |-> IF w.pn THEN "q" ELSE "p", n |-> 0, n2 |-> 0, toks |-> <<>>],
                           [k |-> "lit", s |-> "\t", n |-> 0, n2 |-> 0, toks |-> <<>>],
                           [k |-> "var", s |-> "a", n |-> 0, n2 |-> 0, toks |-> <<>>]>>, nl |-> TRUE]
Facts(w, p) == [m |-> p.m, q |-> [i \in 1..Len(p.m) |-> ToCh(p.m[i])], b |-> p.b, payload |-> p.payload, num |-> 0, count |-> 0, fl |-> w.fl, mus |-> w.mus]
\* s: n found so far, the output, the statistics' texts, whether it has all been ended
Found(w, s, x) ==
  Bind(IF w.quiet THEN Txt("") ELSE LET f == IF w.fmt = <<>> THEN PlainFmt(w) ELSE w.fmt[1] IN
         Bind(FormatText([x EXCEPT !.num = s.n + 1], f), LAMBDA v : IF Ended(v) THEN v ELSE Txt(v.s \o LineEnd(f))), LAMBDA v :
    IF v.k = "abort" THEN [s EXCEPT !.stop = TRUE]
    ELSE [n |-> s.n + 1, out |-> s.out \o v.s, stop |-> FALSE,
          stats |-> IF w.hist = <<>> THEN <<>> ELSE Append(s.stats, x)])
Step(w, s, p) ==
  IF s.stop \/ (w.limit > 0 /\ s.n = w.limit) THEN s
  ELSE Bind(For(w.o, p.b, Len(p.m)), LAMBDA oo :
    IF Len(p.m) # LeadLen(oo) THEN s
    ELSE Bind(Facts(w, p), LAMBDA x :
      Bind(IF ~Lists(oo, p.m) THEN "no" ELSE AllRequired(x, w.qs), LAMBDA r :
        IF r = "abort" THEN [s EXCEPT !.stop = TRUE]
        ELSE IF (r = "yes") = w.inv THEN s ELSE Found(w, s, x))))
RECURSIVE Run(_, _, _)
Run(w, s, ps) == IF ps = <<>> THEN s ELSE Bind(Step(w, s, Head(ps)), LAMBDA z : Run(w, z, Tail(ps)))
\* each distinct value once, in order, with how often it came up
Key(x, f) == Bind(SelectSeq(f.segs, LAMBDA g : g.k # "lit" /\ ~(g.k = "var" /\ g.s = "c")), LAMBDA gs : [i \in 1..Len(gs) |-> SegText(x, gs[i]).s])
RECURSIVE KeyLess(_, _, _)
KeyLess(a, b, i) == i <= Len(a) /\ (TextLess(a[i], b[i]) \/ (a[i] = b[i] /\ KeyLess(a, b, i + 1)))
Statistics(xs, f) ==
  Bind([i \in 1..Len(xs) |-> Key(xs[i], f)], LAMBDA ks :
    Bind(SetToSortSeq(Range(ks), LAMBDA a, b : KeyLess(a, b, 1)), LAMBDA q :
      ConcatAll([j \in 1..Len(q) |->
        LET I == {i \in 1..Len(ks) : ks[i] = q[j]} IN
        FormatText([xs[CHOOSE i \in I : TRUE] EXCEPT !.count = Cardinality(I)], f).s \o LineEnd(f)])))
Output(w) ==
  Bind(Run(w, [n |-> 0, out |-> "", stats |-> <<>>, stop |-> FALSE], Given(w.lines, w.o.b)), LAMBDA s :
    s.out
    \o (IF w.hist = <<>> THEN "" ELSE (IF ~w.quiet /\ s.n > 0 THEN "\n" ELSE "") \o Statistics(s.stats, w.hist[1]))
    \o (IF w.tally = "" THEN "" ELSE (IF s.n > 0 /\ (~w.quiet \/ w.hist # <<>>) THEN "\n" ELSE "")
        \o (IF w.tally = "raw" THEN ToString(s.n) \o "\n" ELSE "Found " \o ToString(s.n) \o " methods\n")))
=============================================================================
