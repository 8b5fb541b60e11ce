---------------------------- MODULE Trace_Library ----------------------------
(* Accepts recorded sessions with libraries and method sets; runs of methodlib. *)
EXTENDS Library, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, set, ids
vars == <<s, l, set, ids>>
Refused(e) == ~e.ok /\ e.v = "error"
FOfV(v) == [n \in DOMAIN NoFacets |-> IF n \in {"tower", "hand"} /\ v[n] # <<>> THEN v[n][1] ELSE v[n]]
\* the entries a text holds, under each format
ReadAs(kind, a) ==
  CASE kind \in {"lite", "lites"} -> Lite(Lines(NoBOM(a.text, a._bom)), a.b, a.f = 1, <<>>)
    [] kind = "ms" -> Ms(Lines(a.text), 0, <<>>)
    [] kind = "cc" -> Cc(Lines(a.text))
    [] kind = "xml" -> Xml(a._doc)
Kind(a) == IF a.kind # "auto" THEN a.kind
           ELSE IF a._kind = "xml" THEN "xml"
           ELSE IF IsCc(Lines(a.text)) /\ Cc(Lines(a.text)) # <<>> THEN "cc"
           ELSE IF Ms(Lines(a.text), 0, <<>>) # <<>> THEN "ms" ELSE "bad"
EntryOk(v, x) ==
  /\ v.b = x.b /\ v.name = x.name /\ v.base = x.base /\ FOfV(v) = x.f
  /\ \E p \in {Notn(x)} :
       IF p.ok /\ p.chs # <<>> THEN v.ok /\ v.q = p.chs /\ v.full = Title([q |-> p.chs, name |-> x.base]) ELSE ~v.ok
Read(e) ==
  LET k == Kind(e.a) IN
  /\ e.op = "l_read" /\ e.ok /\ UNCHANGED <<set, ids>>
  /\ IF k = "bad" \/ (k = "cc" /\ ~IsCc(Lines(e.a.text))) THEN e.v = "bad"
     ELSE \E xs \in {ReadAs(k, e.a)} : Len(e.v) = Len(xs) /\ \A i \in 1..Len(xs) : EntryOk(e.v[i], xs[i])
\* looking up by title, by changes and by name
FirstOf(xs, P(_)) == LET S == {i \in 1..Len(xs) : P(xs[i])} IN IF S = {} THEN <<>> ELSE <<xs[MinOf(S)]>>
TitleOf(x) == Title([q |-> Notn(x).chs, name |-> x.base])
LFind(e) ==
  /\ e.op = "l_find" /\ e.ok /\ UNCHANGED <<set, ids>>
  /\ \E xs \in {ReadAs(Kind(e.a), e.a)} :
     LET t == FirstOf(xs, LAMBDA x : TitleOf(x) = e.a.title)
         m == FirstOf(xs, LAMBDA x : Notn(x).chs = e.a.m)
         n == FirstOf(xs, LAMBDA x : LowerText(x.name) = LowerText(e.a.name) /\ (e.a.stage = 0 \/ e.a.stage = x.b))
     IN /\ Len(e.v.t) = Len(t) /\ (t # <<>> => EntryOk(e.v.t[1], t[1]))
        /\ Len(e.v.m) = Len(m) /\ (m # <<>> => EntryOk(e.v.m[1], m[1]))
        /\ e.v.l = IF n = <<>> THEN <<>> ELSE <<[q |-> Notn(n[1]).chs, name |-> n[1].base]>>

\* a file is looked for here, then in the folders of the path in turn; an absolute name only where it says
LPath(e) ==
  LET a == e.a
      q == IF a.abs # 0 THEN <<a.abs>> ELSE <<0>> \o a.path
      I == {i \in 1..Len(q) : q[i] \in Range(a.have)}
  IN /\ e.op = "l_path" /\ e.ok /\ UNCHANGED <<set, ids>>
     /\ e.v = IF I = {} THEN "none" ELSE "M" \o ToString(q[MinOf(I)])
SetEntryOk(v, x) == /\ v.ok /\ v.b = Stage(x.q) /\ v.name = x.name /\ v.base = x.name /\ v.pn = SetPn(x) /\ v.q = x.q
                    /\ v.full = Title(x) /\ FOfV(v) = x.f
AsSet(xs) == [i \in 1..Len(xs) |-> [q |-> Notn(xs[i]).chs, name |-> xs[i].base, f |-> Keep(xs[i].f, ids)]]
SNew(e) == e.op = "ms_new" /\ e.ok /\ e.v = 0 /\ set' = <<>> /\ ids' = e.a.ids
SAdd(e) == e.op = "ms_add" /\ e.ok /\ ids' = ids /\ set' = Insert(set, [q |-> e.a.m, name |-> e.a.name, f |-> NoFacets]) /\ e.v = Len(set')
SLib(e) == /\ e.op = "ms_lib" /\ e.ok /\ ids' = ids
           /\ \E xs \in {ReadAs(Kind(e.a), e.a)} : set' = InsertAll(set, AsSet(xs)) /\ e.v = [n |-> Len(xs), size |-> Len(set')]
SClear(e) == e.op = "ms_clear" /\ e.ok /\ ids' = ids /\ set' = <<>> /\ e.v = 0
SList(e) == /\ e.op = "ms_list" /\ e.ok /\ UNCHANGED <<set, ids>> /\ Len(e.v) = Len(set)
            /\ \A i \in 1..Len(set) : SetEntryOk(e.v[i], set[i])
SFind(e) ==
  LET m == FirstOf(set, LAMBDA x : x.q = e.a.m)
      t == FirstOf(set, LAMBDA x : Title(x) = e.a.title)
      n == FirstOf(set, LAMBDA x : LowerText(x.name) = LowerText(e.a.name) /\ (e.a.stage = 0 \/ e.a.stage = Stage(x.q)))
  IN /\ e.op = "ms_find" /\ e.ok /\ UNCHANGED <<set, ids>>
     /\ Len(e.v.m) = Len(m) /\ (m # <<>> => SetEntryOk(e.v.m[1], m[1]))
     /\ Len(e.v.t) = Len(t) /\ (t # <<>> => SetEntryOk(e.v.t[1], t[1]))
     /\ e.v.l = IF n = <<>> THEN <<>> ELSE <<[q |-> n[1].q, name |-> n[1].name]>>
SFacet(e) ==
  LET I == {i \in 1..Len(set) : set[i].q = e.a.m}
      k == FacetNames[e.a.kind + 1]
      val == IF k \in {"tower", "hand"} THEN <<<<e.a.d, e.a.mo, e.a.y>>, e.a.text>> ELSE <<e.a.text>>
  IN /\ e.op = "ms_facet" /\ e.ok /\ ids' = ids
     /\ IF I = {} THEN set' = set /\ e.v = "none"
        ELSE LET i == CHOOSE i \in I : TRUE IN set' = [set EXCEPT ![i].f[k] = val] /\ SetEntryOk(e.v, set'[i])
\* ---- XML: e.v.docs[i] are the fields of the i-th file, read by an XML parser of our own
KindText(c) == CASE c = PRINCIPLE -> "principle" [] c = BOB -> "plain/bob" [] c = PLACE -> "plain/place" [] c = TREBLEBOB -> "treble-dodging/treble-bob"
  [] c = SURPRISE -> "treble-dodging/surprise" [] c = DELIGHT -> "treble-dodging/delight" [] c = TREBLEPLACE -> "treble-place"
  [] c = ALLIANCE -> "alliance" [] c = HYBRID -> "hybrid" [] c = SLOWCOURSE -> "slow-course" [] OTHER -> ""
DateText(d) == IF d[1] = 0 THEN "" ELSE
  LET P(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x) IN ToString(d[3]) \o "-" \o P(d[2]) \o "-" \o P(d[1])
PealText(p) == IF p = <<>> THEN <<>> ELSE <<<<DateText(p[1]), p[2]>>>>
XmlFieldsOk(v, x) ==
  \E cl \in {MethClass(x.q, 9999)} :
  LET n == Stage(x.q)  code == LHCode(x.q)
      sp == IF Len(x.q) % 2 = 0 THEN SymPoint(x.q) ELSE -1
      P(t) == ParsePN(n, Chars(t)).chs
  IN /\ v.name = x.name /\ v.title = FullName(x.q, x.name, 9999, cl) /\ v.stage = ToString(n)
     /\ v.classes = ClassName(cl % 16, 9999) /\ v.lh = RowText(LeadHead(x.q))
     /\ v.cls = KindText(cl % 16) /\ v.little = (IF Has(cl, LITTLE) THEN "true" ELSE "") /\ v.diff = (IF Has(cl, DIFFERENTIAL) THEN "true" ELSE "")
     /\ v.code = (IF CharAt(code, 1) = "z" THEN "" ELSE code)
     /\ IF sp = -1 THEN v.sym = <<>> /\ Len(v.block) = 1 /\ P(v.block[1]) = x.q
        ELSE v.block = <<>> /\ Len(v.sym) = 2 /\ Mirror(P(v.sym[1])) \o Mirror(P(v.sym[2])) = x.q
     /\ v.tower = PealText(x.f.tower) /\ v.hand = PealText(x.f.hand) /\ v.rw = x.f.rw /\ v.ccc = x.f.ccc
\* what reads back: everything but the payload
BackOk(v, x) ==
  /\ v.ok /\ v.b = Stage(x.q) /\ v.q = x.q /\ v.base = x.name /\ v.name = Title(x) /\ v.full = Title(x)
  /\ FOfV(v) = [x.f EXCEPT !.payload = <<>>, !.ref = <<>>]
SXml(e) ==
  /\ e.op = "ms_xml" /\ e.ok /\ UNCHANGED <<set, ids>>
  /\ Len(e.v.docs) = e.a.k /\ Len(e.v.back) = e.a.k
  /\ \A i \in 1..e.a.k : /\ Len(e.v.docs[i]) = Len(set) /\ Len(e.v.back[i]) = Len(set)
                         /\ \A j \in 1..Len(set) : XmlFieldsOk(e.v.docs[i][j], set[j]) /\ BackOk(e.v.back[i][j], set[j])
\* ---- lines of text: notation, then payload, name or title
SStream(e) == /\ e.op = "ms_stream" /\ e.ok /\ UNCHANGED <<set, ids>>
              /\ Lines(e.v) = [i \in 1..Len(set) |-> StreamLine(set[i], e.a.bells, e.a.form)]
\* ---- methodlib: the methods of some libraries that have the stage, lead length and title asked for
Selected(a, xs) ==
  LET Fits(x) == (a.stage = 0 \/ Stage(x.q) = a.stage) /\ (a.len = 0 \/ Len(x.q) = a.len)
      Suffixes == IF a.suffixes = <<>> THEN <<"">> ELSE a.suffixes
      Try(t, j) == IF Suffixes[j] = "" THEN t ELSE t \o " " \o Suffixes[j]
      Hit(t) == LET J == {j \in 1..Len(Suffixes) : \E i \in 1..Len(xs) : Title(xs[i]) = Try(t, j)} IN
                IF J = {} THEN <<>> ELSE FirstOf(xs, LAMBDA x : Title(x) = Try(t, MinOf(J)))
      Label(i, x) == [x EXCEPT !.f.payload = IF a.payload THEN <<a.payloads[i]>> ELSE IF a.suffixes # <<>> THEN <<a.titles[i]>> ELSE <<>>]
      RECURSIVE T(_, _, _)
      T(i, acc, ok) == IF i > Len(a.titles) THEN <<acc, ok>> ELSE
        LET h == Hit(a.titles[i]) IN
        IF h = <<>> \/ ~Fits(h[1]) THEN T(i + 1, acc, FALSE) ELSE T(i + 1, Append(acc, Label(i, h[1])), ok)
      all == SelectSeq(xs, LAMBDA x : (a.starts = "" \/ (Len(Title(x)) >= Len(a.starts) /\ Sub2(Title(x), 1, Len(a.starts)) = a.starts)) /\ Fits(x))
  IN IF a.bytitle THEN T(1, <<>>, TRUE) ELSE <<all, all # <<>>>>
MLib(e) ==
  /\ e.op = "methodlib" /\ e.ok /\ UNCHANGED <<set, ids>>
  /\ LET RECURSIVE All(_, _)
         All(i, acc) == IF i > Len(e.a.libs) THEN acc
           ELSE All(i + 1, TLCEval(InsertAll(acc, LET xs == ReadAs(Kind(e.a.libs[i]), e.a.libs[i]) IN
                  [j \in 1..Len(xs) |-> [q |-> Notn(xs[j]).chs, name |-> xs[j].base, f |-> NoFacets]])))
     IN \E r \in {Selected(e.a, All(1, <<>>))} :
          /\ e.v.rc = (IF r[2] THEN 0 ELSE 1)
          /\ e.v.out = [i \in 1..Len(r[1]) |-> StreamLine(r[1][i], IF e.a.bells THEN 1 ELSE 0, e.a.form)]
Init == s \in 1..Len(Sessions) /\ l = 1 /\ set = <<>> /\ ids = <<>>
Ev(e) == Read(e) \/ LPath(e) \/ LFind(e) \/ SNew(e) \/ SAdd(e) \/ SLib(e) \/ SClear(e) \/ SList(e) \/ SFind(e) \/ SFacet(e) \/ SXml(e) \/ SStream(e) \/ MLib(e)
Next == \/ l <= Len(Sessions[s]) /\ Ev(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
