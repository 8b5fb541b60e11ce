------------------------------- MODULE Library -------------------------------
(* Method libraries.  A library is a text; reading it yields a sequence of
   entries: stage, name as written, base name, place notation and facets.  The
   readers of the line-based formats are state machines over the lines.       *)
EXTENDS Method

\* ---- text --------------------------------------------------------------------
Sub2(t, i, j) == IF j < i THEN "" ELSE SubSeq(t, i, Min2(j, Len(t)))
From(t, i) == Sub2(t, i, Len(t))
FindAll(t, w) == {i \in 1..(Len(t) - Len(w) + 1) : SubSeq(t, i, i + Len(w) - 1) = w}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
FindIn(t, w) == LET S == FindAll(t, w) IN IF S = {} THEN 0 ELSE MinOf(S)
HasText(t, w) == FindAll(t, w) # {}
FindFrom(t, w, i) == LET S == {x \in FindAll(t, w) : x >= i} IN IF S = {} THEN 0 ELSE MinOf(S)
Blank == {" ", "\t", "\r", "\n"}
CharAt(t, i) == SubSeq(t, i, i)
RECURSIVE RTrim(_)
RTrim(t) == IF t # "" /\ CharAt(t, Len(t)) \in Blank THEN RTrim(Sub2(t, 1, Len(t) - 1)) ELSE t
RECURSIVE SkipOf(_, _, _)
SkipOf(t, i, S) == IF i <= Len(t) /\ CharAt(t, i) \in S THEN SkipOf(t, i + 1, S) ELSE i
RECURSIVE NextOf(_, _, _)   \* first place from i holding a member of S, or one past the end
NextOf(t, i, S) == IF i <= Len(t) /\ CharAt(t, i) \notin S THEN NextOf(t, i + 1, S) ELSE i
RECURSIVE DigitsAt(_, _, _)
DigitsAt(t, i, v) == IF i > Len(t) \/ DigitVal(CharAt(t, i)) < 0 THEN v ELSE DigitsAt(t, i + 1, v * 10 + DigitVal(CharAt(t, i)))
Atoi(t) == DigitsAt(t, SkipOf(t, 1, Blank), 0)
RECURSIVE LinesFrom(_, _, _)
LinesFrom(t, i, acc) == IF i > Len(t) THEN acc ELSE LET j == NextOf(t, i, {"\n"}) IN LinesFrom(t, j + 1, Append(acc, Sub2(t, i, j - 1)))
Lines(t) == LinesFrom(t, 1, <<>>)
EndsIn(t, w) == Len(t) >= Len(w) /\ From(t, Len(t) - Len(w) + 1) = w
Strip(t, w) == IF w # "" /\ EndsIn(t, w) THEN RTrim(Sub2(t, 1, Len(t) - Len(w))) ELSE t
\* strip the first of these that the text ends in
RECURSIVE StripOne(_, _)
StripOne(t, ws) == IF ws = <<>> THEN t ELSE IF EndsIn(t, ws[1]) THEN Strip(t, ws[1]) ELSE StripOne(t, Tail(ws))
Upper2 == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower2 == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerCh(c) == LET S == {i \in 1..26 : Upper2[i] = c} IN IF S = {} THEN c ELSE Lower2[CHOOSE i \in S : TRUE]
LowerText(t) == ConcatAll([i \in 1..Len(t) |-> LowerCh(CharAt(t, i))])

\* ---- entries -------------------------------------------------------------------
NoFacets == [payload |-> <<>>, ref |-> <<>>, tower |-> <<>>, hand |-> <<>>, rw |-> <<>>, ccc |-> <<>>]
Ent(b, name, base, pn, f) == [b |-> b, name |-> name, base |-> base, pn |-> pn, f |-> f]
Notn(x) == ParsePN(x.b, Chars(x.pn))

\* ---- lite: [stage:]notation, then the name ----------------------------------------
LiteLine(line, req, payname) ==
  LET i == SkipOf(line, 1, {" ", "\t", "\r"})
      j == NextOf(line, i, Blank)
      word == Sub2(line, i, j - 1)
      c == FindIn(word, ":")
      b == IF c = 0 THEN 0 ELSE Atoi(Sub2(word, 1, c - 1))
      pn == IF c = 0 THEN word ELSE From(word, c + 1)
      rest == RTrim(From(line, SkipOf(line, j, Blank)))
      name == IF payname THEN rest ELSE ""
      bb == IF req = 0 THEN b ELSE req
      nostage == Strip(name, StageName(bb))
      kinds == <<"Treble Bob", "Treble Place", "Bob", "Place", "Surprise", "Delight", "Alliance", "Slow Course">>
      nokind == StripOne(nostage, kinds)
      nolittle == IF nokind # nostage THEN Strip(nokind, "Little") ELSE nokind
      base == IF EndsIn(name, StageName(bb)) THEN Strip(nolittle, "Differential") ELSE name
  IN IF i > Len(line) \/ (req = 0 /\ b = 0) \/ (req > 0 /\ b \notin {0, req}) THEN <<>>
     ELSE <<Ent(bb, name, base, pn, [NoFacets EXCEPT !.payload = <<rest>>])>>
RECURSIVE Lite(_, _, _, _)
Lite(ls, req, payname, acc) == IF ls = <<>> THEN acc ELSE Lite(Tail(ls), req, payname, acc \o LiteLine(ls[1], req, payname))
\* a byte-order mark before the first line means nothing
NoBOM(t, bom) == IF bom THEN From(t, 4) ELSE t

\* ---- MicroSIRIL: a header line "* class+stage", then "name lead-head notation" ------
SpacesIn(t) == Cardinality({i \in 1..Len(t) : CharAt(t, i) = " "})
MsPn(t) ==
  LET a == FindIn(t, " ")  b == FindFrom(t, " ", a + 1)
      lh == Sub2(t, a + 1, b - 1)  pn == RTrim(From(t, b + 1))
      z == lh # "" /\ CharAt(lh, Len(lh)) = "z"
  IN IF pn # "" /\ CharAt(pn, 1) = "+" THEN pn
     ELSE IF z THEN pn \o "," \o Sub2(lh, 1, Len(lh) - 1)
     ELSE IF lh # "" /\ CharAt(lh, 1) \in {"a", "b", "c", "d", "e", "f", "p", "q"} THEN pn \o ",2" ELSE pn \o ",1"
NoCR(t) == IF t # "" /\ CharAt(t, Len(t)) = "\r" THEN Sub2(t, 1, Len(t) - 1) ELSE t
LettersUL == Range(Upper2) \cup Range(Lower2)
RECURSIVE Ms(_, _, _)
Ms(ls, b, acc) ==
  IF ls = <<>> THEN acc ELSE
  LET t == NoCR(ls[1]) IN
  IF t = "" THEN Ms(Tail(ls), b, acc)
  ELSE IF CharAt(t, 1) = "*" THEN
    LET p == FindIn(t, " ")  q == SkipOf(t, p + 1, LettersUL) IN
    Ms(Tail(ls), IF p = 0 \/ q > Len(t) THEN b ELSE Atoi(From(t, q)), acc)
  ELSE IF SpacesIn(t) # 2 \/ (HasText(t, "Name") /\ HasText(t, "No.")) THEN acc
  ELSE LET n == Sub2(t, 1, FindIn(t, " ") - 1) IN Ms(Tail(ls), b, Append(acc, Ent(b, n, n, MsPn(t), NoFacets)))

\* ---- Central Council tables ----------------------------------------------------------
\* Columns are where their headings stand (0: no such column).
CcHeader(t) ==
  LET hl == FindIn(t, "hl")
      td == FindIn(t, "Tower bells")  tp == IF td = 0 THEN 0 ELSE FindIn(t, "Place")
      hd == FindIn(t, "Handbells")  rs == FindIn(t, "RW ref")  cs == FindIn(t, "CCC")
      After(i, k) == LET j == SkipOf(t, i + k, Blank) IN IF j > Len(t) THEN 0 ELSE j
  IN [name |-> FindIn(t, "Name"), notn |-> FindIn(t, "Notation"), hl |-> hl, le |-> IF hl = 0 THEN 0 ELSE FindIn(t, "le"),
      lh |-> FindIn(t, "lh"), td |-> td, tp |-> tp, te |-> IF td = 0 THEN 0 ELSE IF tp # 0 THEN After(tp, 5) ELSE After(td, 11),
      hd |-> hd, he |-> IF hd = 0 THEN 0 ELSE After(hd, 9), rs |-> rs, re |-> IF rs = 0 THEN 0 ELSE After(rs, 6),
      cs |-> cs, ce |-> IF cs = 0 THEN 0 ELSE After(cs, 3)]
CcKinds == <<"Treble Place", "Alliance", "Hybrid", "Surprise", "Delight", "Treble Bob">>
CcTitle(t, st) ==
  LET K == {i \in 1..6 : HasText(t, CcKinds[i] \o " ")}
      main == IF K = {} THEN "" ELSE CcKinds[MinOf(K)]
      what == IF HasText(t, "methods") THEN " methods" ELSE IF HasText(t, "principles") THEN " principles"
              ELSE IF HasText(t, "blocks") THEN " blocks" ELSE " differentials"
      B == {n \in 3..22 : HasText(t, StageName(n) \o what)}
  IN [st EXCEPT !.main = main, !.plain = (main = ""), !.little = HasText(t, "Little "), !.block = HasText(t, "blocks"),
                !.diff = HasText(t, "differentials") \/ HasText(t, "Differential "), !.b = IF B = {} THEN @ ELSE MinOf(B)]
Field(t, i, e) == RTrim(Sub2(t, i, IF e = 0 THEN Len(t) ELSE e - 1))
CcPeal(t, date, place, e) ==
  IF date = 0 \/ date > Len(t) + 1 THEN <<>> ELSE
  LET end == IF e = 0 \/ e > Len(t) + 1 THEN Len(t) + 1 ELSE e
      pl == IF place > Len(t) + 1 THEN 0 ELSE place
      lim == IF pl = 0 THEN end ELSE pl
      i1 == FindFrom(t, ".", date)  i2 == IF i1 = 0 THEN 0 ELSE FindFrom(t, ".", i1 + 1)
      d == Atoi(From(t, date))  m == Atoi(From(t, i1 + 1))  y == Atoi(From(t, i2 + 1))
      good == i1 # 0 /\ i2 # 0 /\ i1 < lim /\ i2 < lim /\ d # 0 /\ m # 0 /\ y # 0
      loc == IF pl = 0 THEN "" ELSE RTrim(Sub2(t, pl, end - 1))
  IN IF ~good /\ loc = "" THEN <<>> ELSE <<IF good THEN <<d, m, y>> ELSE <<0, 0, 0>>, loc>>
CcEntry(st, t, wrap) ==
  LET c == st.c
      n0 == IF wrap # "" THEN RTrim(From(wrap, c.name)) ELSE Field(t, c.name, c.notn)
      n1 == IF st.diff /\ ~HasText(n0, "Differential") THEN n0 \o " Differential" ELSE n0
      main == IF st.main = "Hybrid" THEN "" ELSE st.main
      n2 == IF main # "" /\ ~HasText(n1, " " \o main) THEN n1 \o " " \o main ELSE n1
      n3 == IF st.block /\ ~HasText(n2, " Block") THEN n2 \o " Block" ELSE n2
      b0 == IF st.block THEN Strip(n3, "Block") ELSE n3
      b1 == IF st.plain THEN StripOne(b0, <<"Bob", "Place", "Slow Course">>) ELSE b0
      b2 == Strip(b1, main)
      b3 == IF st.little THEN Strip(b2, "Little") ELSE b2
      b4 == IF st.diff THEN Strip(b3, "Differential") ELSE b3
      first == CharAt(t, c.notn)
      k == NextOf(t, c.notn, {x \in Range(Chars(t)) : x \notin Alnum \/ x \in {"X", "x"}})
      pn == IF c.hl # 0 /\ c.le # 0 THEN "&" \o Sub2(t, c.notn, c.hl - 1) \o Sub2(t, c.hl, c.le - 1) \o "," \o Sub2(t, c.le, c.lh - 1)
            ELSE IF c.hl # 0 THEN IF first \in {"X", "x", "-"} THEN "-,&" \o Sub2(t, c.notn + 1, c.lh - 1)
                                  ELSE Sub2(t, c.notn, Min2(k, c.lh) - 1) \o ",&" \o Sub2(t, Min2(k, c.lh), c.lh - 1)
            ELSE Sub2(t, c.notn, c.lh - 1)
      Opt(x) == IF x = "" THEN <<>> ELSE <<x>>
      rw == IF c.rs = 0 THEN "" ELSE Field(t, c.rs, c.re)
      cc == IF c.cs = 0 THEN "" ELSE Field(t, c.cs, c.ce)
  IN Ent(st.b, n3, b4, pn, [payload |-> <<>>, ref |-> <<ToString(Atoi(IF wrap # "" THEN wrap ELSE t))>>,
       tower |-> CcPeal(t, c.td, c.tp, c.te), hand |-> CcPeal(t, c.hd, 0, c.he), rw |-> Opt(rw), ccc |-> Opt(From(cc, SkipOf(cc, 1, {" "})))])
NoCols == [name |-> 0, notn |-> 0]
CcLine(st, t) ==
  IF st.wrap # "" THEN [st EXCEPT !.wrap = "", !.out = IF Len(t) >= st.c.lh THEN Append(@, CcEntry(st, t, st.wrap)) ELSE @]
  ELSE IF HasText(t, "Name") /\ HasText(t, "No.") THEN [st EXCEPT !.c = CcHeader(t)]
  ELSE IF st.c.name # st.c.notn /\ st.b > 0 /\ Len(t) > st.c.notn - 4 /\ Atoi(Sub2(t, 1, st.c.name - 1)) # 0 THEN
    IF Len(t) >= st.c.notn /\ Sub2(t, st.c.notn - 2, st.c.notn - 1) = "  "
    THEN [st EXCEPT !.out = IF Len(t) >= st.c.lh THEN Append(@, CcEntry(st, t, "")) ELSE @]
    ELSE [st EXCEPT !.wrap = t]
  ELSE IF \E w \in {"methods", "principles", "differentials", "blocks"} : HasText(t, w) THEN CcTitle(t, st)
  ELSE st
RECURSIVE CcFold(_, _)
CcFold(ls, st) == IF ls = <<>> THEN st.out ELSE CHOOSE y \in {CcFold(Tail(ls), x) : x \in {CcLine(st, ls[1])}} : TRUE
CcInit == [c |-> NoCols, b |-> 0, main |-> "", diff |-> FALSE, little |-> FALSE, plain |-> FALSE, block |-> FALSE, wrap |-> "", out |-> <<>>]
Cc(ls) == CcFold(ls, CcInit)
IsCc(ls) == ls # <<>> /\ HasText(ls[1], "Copyright ")

\* ---- XML --------------------------------------------------------------------------
\* doc.cc: the Central Council's format; doc.sets: sequences of methods, perhaps with a common stage
XmlPn(m) == IF m.pn.k = "block" THEN m.pn.a ELSE IF m.pn.k = "sym" THEN "&" \o m.pn.a \o ",&" \o m.pn.b
            ELSE LET c == FindIn(m.pn.a, ",") IN IF ~m.pn.pal \/ c <= 1 \/ c = Len(m.pn.a) THEN m.pn.a
                 ELSE "&" \o Sub2(m.pn.a, 1, c) \o "&" \o From(m.pn.a, c + 1)
XmlPeal(p) == IF p = <<>> THEN <<>> ELSE
  LET NE(x) == x # "" IN <<p[1].date, JoinWith(SelectSeq(p[1].loc, NE), ", ")>>
XmlMeth(set, m) == Ent(IF m.stage > 0 THEN m.stage ELSE set.stage, m.title, m.name, XmlPn(m),
  [NoFacets EXCEPT !.tower = XmlPeal(m.tower), !.hand = XmlPeal(m.hand), !.rw = m.rw, !.ccc = m.ccc])
RECURSIVE XmlSets(_, _)
XmlSets(ss, acc) == IF ss = <<>> THEN acc ELSE XmlSets(Tail(ss), acc \o [i \in 1..Len(ss[1].ms) |-> XmlMeth(ss[1], ss[1].ms[i])])
Xml(doc) == XmlSets(doc.sets, <<>>)

\* ---- method sets -----------------------------------------------------------------------
\* A set holds each sequence of changes once, in order.
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF ChLess(a[1], b[1]) THEN TRUE ELSE IF ChLess(b[1], a[1]) THEN FALSE ELSE SeqLess(Tail(a), Tail(b))
Insert(set, x) ==
  IF \E i \in 1..Len(set) : set[i].q = x.q THEN set
  ELSE LET k == Cardinality({i \in 1..Len(set) : SeqLess(set[i].q, x.q)}) IN SubSeq(set, 1, k) \o <<x>> \o SubSeq(set, k + 1, Len(set))
FacetNames == <<"payload", "tower", "hand", "rw", "ccc">>
Keep(f, ids) == [n \in DOMAIN NoFacets |-> IF \E i \in 1..Len(ids) : FacetNames[ids[i] + 1] = n THEN f[n] ELSE <<>>]
RECURSIVE InsertAll(_, _)
InsertAll(set, xs) == IF xs = <<>> THEN set ELSE InsertAll(TLCEval(Insert(set, xs[1])), Tail(xs))
SetPn(x) == Format(x.q, SYMMETRY + DASH)
Title(x) == LET c == MethClass(x.q, 9999) IN FullName(x.q, x.name, 9999, c)
\* ---- lines of text: [stage:]notation, then payload, name or title
PayloadOrName(x) == IF x.f.payload # <<>> THEN x.f.payload[1] ELSE x.name
StreamLine(x, bells, form) ==
  (IF bells = 1 THEN ToString(Stage(x.q)) \o ":" ELSE "") \o SetPn(x) \o
  (CASE form = 0 -> "\t" \o PayloadOrName(x) [] form = 1 -> "\t" \o (IF x.f.payload # <<>> THEN x.f.payload[1] ELSE "")
     [] form = 2 -> "\t" \o x.name [] form = 3 -> "\t" \o Title(x) [] OTHER -> "")
=============================================================================
