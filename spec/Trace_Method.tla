----------------------------- MODULE Trace_Method -----------------------------
(* Accepts recorded sessions on place notation and methods.  `cur` is the method
   being built: its changes and its stage; `un` the name of unnamed methods.  *)
EXTENDS Method, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, cur
vars == <<s, l, cur>>
Ok(e, v) == e.ok /\ e.v = v
Refused(e) == ~e.ok /\ e.v = "error"
B(x) == IF x THEN 1 ELSE 0

Parse(e) == LET p == ParsePN(e.a.n, Chars(e.a.t)) IN
  IF p.ok THEN e.ok /\ e.v.ok /\ e.v.s = p.chs /\ e.v.c = p.chs /\ e.v.i = p.chs /\ e.v.b = e.a.n /\ e.v.len = Len(p.chs)
  ELSE Refused(e)
Range2(e) == LET p == ParsePN(e.a.n, SubSeq(Chars(e.a.t), 1, e.a.k)) IN IF p.ok THEN Ok(e, p.chs) ELSE Refused(e)
Fmt(e) ==
  LET q == e.a.cs
      want == IF Has(e.a.f, OMITLH) THEN SubSeq(q, 1, Len(q) - 1) ELSE q
      p == ParsePN(q[1].n, Chars(e.v.t))
  IN e.ok /\ e.v.back = want /\ p.ok /\ p.chs = want /\ e.v.t = Format(q, e.a.f)

Facts(e) ==
  LET q == e.a.cs  v == e.v  n == Stage(q)  len == Len(q)  mv == Moves(q)  P == Paths(q) IN
  /\ e.ok /\ v.len = len /\ v.bells = n
  /\ v.lh = LeadHead(q) /\ v.leads = Leads(q) /\ v.hunts = Cardinality(Hunts(q)) /\ v.reg = IsRegular(q)
  /\ v.sym = IsSym(q) /\ v.sp = SymPoint(q) /\ v.pal = (v.sp # -1) /\ v.dbl = IsDouble(q)
  /\ v.blows = MaxBlows(q)
  /\ v.ab = [i \in 1..len |-> B(PalAbout(q, i - 1))]
  /\ v.pl = [b \in 1..n |-> B(IsPlain(len, P[b]))]
  /\ v.dg = [b \in 1..n |-> B(HasDodges(len, P[b]))]
  /\ v.ip = [b \in 1..n |-> B(HasPlaces(len, P[b], n))]
  /\ v.bs = [b \in 1..n |-> B(len % 2 = 0 /\ BellPal(mv, P[b], (len \div 2) - 1))]
  /\ v.bp = [b \in 1..n |-> IF len % 2 = 1 THEN -2 ELSE BellSymPoint(mv, P[b])]
  /\ v.code = LHCode(q)
  /\ v.c18 = MethClass(q, 2018) /\ v.c19 = MethClass(q, 2019) /\ v.c = v.c19
  /\ v.n18 = ClassName(v.c18, 2018) /\ v.n = ClassName(v.c, 9999)
  /\ v.f18 = FullName(q, e.a.name, 2018, v.c18) /\ v.f = FullName(q, e.a.name, 9999, v.c)

Stateless(e) ==
  CASE e.op = "n_parse" -> Parse(e)
    [] e.op = "n_range" -> Range2(e)
    [] e.op = "m_fmt" -> Fmt(e)
    [] e.op = "m_facts" -> Facts(e)
    [] e.op = "m_lhcode" -> Ok(e, LHCode(e.a.cs))
    [] e.op = "m_stage" -> Ok(e, StageName(e.a.n))
    [] e.op = "m_untitled" -> Ok(e, [a |-> e.a.t, b |-> e.a.t, c |-> e.a.t])
    [] OTHER -> FALSE

Shown(e) == Ok(e, [cs |-> cur'.cs, b |-> cur'.b, l |-> Len(cur'.cs)])
New(e) == e.op = "m_new" /\ cur' = [b |-> e.a.n, cs |-> [i \in 1..e.a.k |-> FromSet(e.a.n, {})]] /\ Shown(e)
\* a longer change raises the stage
Push(e) == e.op = "m_push" /\ cur' = [b |-> Max2(cur.b, e.a.c.n), cs |-> Append(cur.cs, e.a.c)] /\ Shown(e)
Pushs(e) == /\ e.op = "m_pushs"
            /\ LET p == ParseChange(cur.b, Chars(e.a.t)) IN
               IF p.ok THEN cur' = [cur EXCEPT !.cs = Append(@, p.c)] /\ Shown(e) ELSE UNCHANGED cur /\ Refused(e)
Swap(e) == /\ e.op = "m_swapwith"
           /\ LET p == ParsePN(e.a.n, Chars(e.a.t)) IN
              IF p.ok THEN cur' = [b |-> e.a.n, cs |-> p.chs] /\ Shown(e) ELSE UNCHANGED cur /\ Refused(e)
Edits == {"m_new", "m_push", "m_pushs", "m_swapwith"}

Init == s \in 1..Len(Sessions) /\ l = 1 /\ cur = [b |-> 0, cs |-> <<>>]
Step(e) == New(e) \/ Push(e) \/ Pushs(e) \/ Swap(e) \/ (e.op \notin Edits /\ Stateless(e) /\ UNCHANGED cur)
Next == \/ l <= Len(Sessions[s]) /\ Step(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
