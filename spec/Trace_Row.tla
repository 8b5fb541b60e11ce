------------------------------ MODULE Trace_Row ------------------------------
(* Accepts a recorded session of row and change operations exactly if every
   result is the one the specification gives.  The register `cur` holds the
   change being edited.                                                      *)
EXTENDS Change, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
\* the greatest order of a row on n bells: a row's order is that of its cycles
RECURSIVE Orders(_, _)
Orders(n, k) == IF n = 0 THEN {1} ELSE UNION {{Lcm(p, o) : o \in Orders(n - p, p)} : p \in 1..(IF k < n THEN k ELSE n)}
GreatestOrder(n) == CHOOSE o \in Orders(n, n) : \A q \in Orders(n, n) : q <= o
RECURSIVE Factorial(_), Fib(_, _, _), IntPow(_, _)
Factorial(n) == IF n <= 1 THEN 1 ELSE n * Factorial(n - 1)
Fib(n, x, y) == IF n <= 0 THEN 1 ELSE IF n = 1 THEN y ELSE Fib(n - 1, y, x + y)
IntPow(x, n) == IF n = 0 THEN 1 ELSE x * IntPow(x, n - 1)
Prime(n) == n >= 2 /\ \A d \in 2..(n - 1) : n % d # 0
RECURSIVE NextPrime(_)
NextPrime(n) == IF Prime(n) THEN n ELSE NextPrime(n + 1)
VARIABLES s, l, cur
vars == <<s, l, cur>>

Ok(e, v) == e.ok /\ e.v = v
Refused(e) == ~e.ok /\ e.v = "error"

RowFacts(r, v) ==
  LET n == Len(r) IN
  /\ v.order = Order(r) /\ v.sign = Sign(r) /\ v.isrounds = IsRounds(r) /\ v.bells = n
  /\ v.ncyc = NumCycles(r)
  /\ v.cyc = [b \in 1..n |-> CycleLen(r, b)]
  /\ v.find = [b \in 1..n |-> Pos(r, b)]
  /\ n <= MaxBells => v.cycles = CycleText(r)
  /\ v.pblhh = [h \in 1..n |-> WhichPBLH(r, h - 1)]
  /\ n > 0 => v.pblh = (IF LeadingFixed(r) = 0 THEN 0 ELSE WhichPBLH(r, LeadingFixed(r)))
  /\ v.copy = r /\ v.asg = r /\ v.back = r /\ v.eqself
  /\ n <= MaxBells => v.print = RowText(r)
  /\ v.out = RowText(r)
  /\ n > 0 => (v.sread = r /\ v.snext = <<2, 1>>)

ChFacts(c, v) ==
  LET n == c.n IN
  /\ v.c = c /\ v.rev = ReverseCh(c) /\ v.back = c /\ v.eqback /\ v.viaplaces = c
  /\ v.print = ChText(c) /\ v.out = ChText(c) /\ v.ux = ChText(c)
  /\ v.lx = (IF ChText(c) = "X" THEN "x" ELSE ChText(c))
  /\ v.dash = (IF ChText(c) = "X" THEN "-" ELSE ChText(c))
  /\ v.sign = ChSign(c) /\ v.internal = Internal(c)
  /\ v.places = Places(c) /\ v.findplace = Places(c) /\ v.nplaces = Len(Places(c))
  /\ v.bell = ChangeRow(c) /\ v.row = ChangeRow(c)

\* row_block: the rows of a sequence of changes (1: no final row, 2: half lead only)
BlockSize(n, f) == (IF f >= 2 THEN n \div 2 ELSE n) + (IF f % 2 = 1 THEN 0 ELSE 1)
RECURSIVE BlockRows(_, _, _)
BlockRows(r, cs, k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<r>>
   ELSE <<r>> \o BlockRows(ApplyCh(r, cs[1]), Tail(cs), k - 1)
RECURSIVE PermSeq(_, _, _, _)
PermSeq(r, rs, cs, out) ==
  IF rs # <<>> THEN LET t == Mul(r, rs[1]) IN PermSeq(t, Tail(rs), cs, out \o <<t, r, t, r>>)
  ELSE IF cs # <<>> THEN LET t == ApplyCh(r, cs[1]) IN PermSeq(t, rs, Tail(cs), out \o <<t, r, t, r>>)
  ELSE out \o <<r, r, r, r>>

Stateless(e) ==
  LET a == e.a IN
  CASE e.op = "r_mul" \/ e.op = "r_mulassign" -> Ok(e, Mul(a.x, a.y))
    [] e.op = "r_selfmul" -> Ok(e, Mul(a.x, a.x))
    [] e.op = "r_div" \/ e.op = "r_divassign" -> Ok(e, Div(a.x, a.y))
    [] e.op = "r_inv" -> Ok(e, Inv(a.x))
    [] e.op = "r_pow" -> Ok(e, Pow(a.x, a.k))
    [] e.op = "r_conj" -> Ok(e, Conj(a.x, a.y))
    [] e.op = "r_facts" -> e.ok /\ RowFacts(a.x, e.v)
    [] e.op = "r_cmp" -> Ok(e, [eq |-> a.x = a.y, ne |-> a.x # a.y, lt |-> LexLess(a.x, a.y), gt |-> LexLess(a.y, a.x),
                               le |-> ~LexLess(a.y, a.x), ge |-> ~LexLess(a.x, a.y),
                               hasheq |-> IF a.x = a.y THEN TRUE ELSE e.v.hasheq])
    [] e.op = "r_areconj" -> /\ e.ok /\ e.v.are = AreConjugate(a.x, a.y)
                             /\ e.v.are => (Len(e.v.k) = Len(a.x) /\ IsRowSeq(e.v.k) /\ Conj(a.x, e.v.k) = a.y)
                             /\ ~e.v.are => e.v.k = <<>>
    [] e.op \in {"r_parse", "r_parsec"} -> LET p == ParseRow(Chars(a.t)) IN IF p.ok THEN Ok(e, p.row) ELSE Refused(e)
    [] e.op = "r_sparse" -> LET p == ParseRow(Chars(a.t)) IN IF p.ok /\ p.row # <<>> THEN Ok(e, p.row) ELSE Refused(e)
    [] e.op = "r_vec" -> IF IsRowSeq(a.x) THEN Ok(e, a.x) ELSE Refused(e)
    [] e.op = "r_resize" -> IF a.k >= Len(a.x) THEN Ok(e, Pad(a.x, a.k))
                            ELSE IF IsRowSeq(SubSeq(a.x, 1, a.k)) THEN Ok(e, SubSeq(a.x, 1, a.k)) ELSE Refused(e)
    [] e.op = "r_swap" -> Ok(e, [a.x EXCEPT ![a.i] = a.x[a.j], ![a.j] = a.x[a.i]])
    [] e.op = "r_special" -> Ok(e, [rounds |-> Rounds(a.n), rounds2 |-> Rounds(a.n), queens |-> Queens(a.n),
                                    kings |-> Kings(a.n), tittums |-> Tittums(a.n), rev |-> Backrounds(a.n)])
    [] e.op = "r_maths" -> Ok(e, [hcf |-> Gcd(a.x, a.y), lcm |-> Lcm(a.x, a.y), fact |-> Factorial(a.n), fib |-> Fib(a.n, 1, 1), landau |-> GreatestOrder(a.n),
                                  prime |-> Prime(a.x), next |-> NextPrime(a.x + 1), pow |-> IntPow(a.x % 13, a.n % 7), sign |-> 1, nsign |-> -1])
    [] e.op = "r_cyclic" -> Ok(e, Cyclic(a.n, a.h, a.c))
    [] e.op = "r_pblh" -> Ok(e, PlainBobLH(a.n, a.h))
    [] e.op = "r_rev3" -> Ok(e, BackroundsHunt(a.nw, a.nh, a.nt))
    [] e.op \in {"r_change", "r_changeassign"} -> Ok(e, ApplyCh(a.x, a.c))
    [] e.op = "r_block" -> Ok(e, BlockRows(IF a.x = <<>> THEN Rounds(a.cs[1].n) ELSE a.x, a.cs, BlockSize(Len(a.cs), a.f)))
    [] e.op = "r_reblock" -> Ok(e, BlockRows(a.x, a.cs, Len(a.cs) + 1))
    [] e.op = "r_permute" -> Ok(e, PermSeq(Rounds(a.n), a.rs, a.cs, <<>>))
    [] e.op \in {"c_parse", "c_parsec", "c_set"} ->
         LET p == ParseChange(a.n, Chars(a.t)) IN IF p.ok THEN e.ok /\ ChFacts(p.c, e.v) ELSE Refused(e)
    [] e.op = "c_places" -> LET p == FromPlaces(a.n, a.pl) IN IF p.ok THEN e.ok /\ ChFacts(p.c, e.v) ELSE Refused(e)
    [] e.op = "c_cmp" -> Ok(e, [eq |-> a.x = a.y, ne |-> a.x # a.y, lt |-> ChLess(a.x, a.y), gt |-> ChLess(a.y, a.x),
                               le |-> ~ChLess(a.y, a.x), ge |-> ~ChLess(a.x, a.y)])
    [] e.op = "c_same" -> IF a.x.n = a.y.n THEN Ok(e, SamePlaces(a.x, a.y)) ELSE Refused(e)
    [] OTHER -> FALSE

\* ---- editing a change: actions on the register --------------------------------
New(e) == e.op = "c_new" /\ cur' = FromSet(e.a.n, {}) /\ e.ok /\ ChFacts(cur', e.v)
Load(e) == /\ e.op = "c_load"
           /\ LET p == ParseChange(e.a.n, Chars(e.a.t)) IN p.ok /\ cur' = p.c
           /\ e.ok /\ ChFacts(cur', e.v)
Toggle(e) == /\ e.op = "c_swappair"
             /\ IF e.a.w + 1 > cur.n THEN Refused(e) /\ UNCHANGED cur
                ELSE /\ cur' = ToggleResult(cur, e.a.w)
                     /\ e.ok /\ e.v.did = (e.a.w \in SwapSet(cur')) /\ ChFacts(cur', e.v.f)
Edits == {"c_new", "c_load", "c_swappair"}

Init == s \in 1..Len(Sessions) /\ l = 1 /\ cur = FromSet(0, {})
Step(e) == New(e) \/ Load(e) \/ Toggle(e) \/ (e.op \notin Edits /\ Stateless(e) /\ UNCHANGED cur)
Next == \/ l <= Len(Sessions[s]) /\ Step(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
