----------------------------- MODULE Trace_Group -----------------------------
(* Recorded sessions over extents, groups, falseness, multiplication tables and
   touches.  Registers: the current and the kept group, the position of an
   extent iterator, and a multiplication table with its columns.               *)
EXTENDS Falseness, Touch
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, G, K, it, mt
vars == <<s, l, G, K, it, mt>>
Ok(e, v) == e.ok /\ e.v = v
Refused(e) == ~e.ok /\ e.v = "error"

\* ---- extents ------------------------------------------------------------------
AsSet(v) == Range(v)
Stateless(e) ==
  LET a == e.a IN
  CASE e.op = "e_all" -> e.ok /\ (IF a.k = 1 THEN IsIncourseExtent(e.v, a.w, a.h, a.t) ELSE IsExtent(e.v, a.w, a.h, a.t))
    [] e.op = "e_nth" -> LET r == Unrank(a.n, a.w, a.h, a.t)
                         IN Ok(e, [r |-> r, x |-> r, pos |-> a.n, xpos |-> a.n, sign |-> Sign(r)])
    [] e.op = "e_nthic" -> Ok(e, [r |-> IncourseUnrank(a.n, a.w, a.h, a.t), pos |-> a.n])
    [] e.op = "e_pos" -> IF Len(a.r) <= a.t /\ Member(Pad(a.r, a.t), a.w, a.h, a.t) THEN Ok(e, Rank(Pad(a.r, a.t), a.w, a.h)) ELSE Refused(e)
    [] e.op = "e_cmp" -> LET B(p) == IF p THEN 1 ELSE 0 IN
          Ok(e, <<B(a.m = a.n), B(a.m # a.n)>> \o (IF a.ic = 1 THEN <<>> ELSE <<B(a.m < a.n), B(a.m > a.n), B(a.m <= a.n), B(a.m >= a.n)>> \o (IF a.n = 0 THEN <<>> ELSE <<1>>)))
    [] e.op = "e_random" -> e.ok /\ Len(e.v) = a.c /\ \A i \in 1..Len(e.v) : Member(e.v[i], a.w, a.h, a.t)
    [] e.op = "e_changes" -> e.ok /\ LET S == TLCEval(ExtentChanges(a.w, a.h, a.t)) IN
          Len(e.v) = Cardinality(S) /\ {e.v[i] : i \in 1..Len(e.v)} = S
    \* ---- falseness ----
    [] e.op \in {"f_table", "f_table2", "f_tablev", "f_tablevv"} ->
          LET A == IF e.op = "f_tablevv" THEN a.x ELSE TLCEval(LeadRows(a.x))
              B == IF e.op = "f_table" THEN A ELSE IF e.op = "f_table2" THEN TLCEval(LeadRows(a.y)) ELSE a.y
              T == TLCEval(FalseHeads(A, B, a.f))
          IN e.ok /\ e.v.n = Cardinality(T) /\ Len(e.v.t) = e.v.n /\ Increasing(e.v.t) /\ AsSet(e.v.t) = T
    [] e.op = "f_group" -> LET T == TLCEval(FalseGroup(LeadRows(a.x), a.f).g) IN
          e.ok /\ Increasing(e.v) /\ AsSet(e.v) = T
    [] e.op = "f_courses" -> LET T == TLCEval(FalseCourseHeads(a.x, a.f)) IN
          e.ok /\ e.v.n = Cardinality(T) /\ Len(e.v.t) = e.v.n /\ Increasing(e.v.t) /\ AsSet(e.v.t) = T
    [] e.op = "f_symbols" -> IF SymbolsRefused(a.x, a.f) THEN ~e.ok ELSE Ok(e, SymbolText(a.x, a.f))
    [] e.op = "f_lookup" -> LET S == TLCEval(Lookups(a.r)) IN e.ok /\ (IF S = {} THEN e.v = "" ELSE e.v \in S)
    \* ---- touches ----
    [] e.op = "t_walk" -> LET c == TLCEval(Expand(a._tree)) IN
         e.ok /\ e.v.same /\ e.v.c = c /\ e.v.at = [i \in 1..(IF Len(c) < 60 THEN Len(c) + 1 ELSE 60) |-> i - 1]
    [] e.op = "t_none" -> Ok(e, 0)
    [] e.op = "t_pn" -> e.ok /\ e.v = a._cs
    [] e.op = "u_sq" -> LET p == Mul(a.x, a.y) IN Ok(e, [r |-> p, pre |-> p, post |-> p])
    [] OTHER -> FALSE

\* ---- the iterator: a position 0..w!, the last being the end -------------------
ItOk(e, j) == IF j.n = Fact(j.w) THEN e.ok /\ e.v.end ELSE e.ok /\ ~e.v.end /\ e.v.r = Unrank(j.n, j.w, j.h, j.t)
Iterate(e) ==
  /\ e.op \in {"e_begin", "e_end", "e_next", "e_prev"}
  /\ it' = (CASE e.op = "e_begin" -> [n |-> 0, w |-> e.a.w, h |-> e.a.h, t |-> e.a.t]
              [] e.op = "e_end" -> [n |-> Fact(e.a.w), w |-> e.a.w, h |-> e.a.h, t |-> e.a.t]
              [] e.op = "e_next" -> [it EXCEPT !.n = @ + 1]
              [] e.op = "e_prev" -> [it EXCEPT !.n = @ - 1])
  /\ it'.n \in 0..Fact(it'.w)
  /\ ItOk(e, it') /\ UNCHANGED <<G, K, mt>>

\* ---- groups -----------------------------------------------------------------
GroupOk(e, H) == /\ e.ok /\ e.v.b = H.b /\ e.v.size = Len(e.v.rows)
                 /\ Len(e.v.rows) = Cardinality(H.g) /\ Increasing(e.v.rows) /\ AsSet(e.v.rows) = H.g
                 /\ e.v.inv = SortedSeq(Invariants(H))
GroupOps == {"g_gen", "g_none", "g_named", "g_even", "g_conj", "g_keep", "g_swap", "g_prod", "g_cmp", "g_label"}
Group_(e) ==
  /\ e.op \in GroupOps /\ UNCHANGED <<it, mt>>
  /\ CASE e.op = "g_gen" -> G' = TLCEval(Generated(AsSet(e.a.rows))) /\ K' = K /\ GroupOk(e, G')
       [] e.op = "g_none" -> G' = Trivial(0) /\ K' = K /\ GroupOk(e, G')
       [] e.op = "g_named" -> G' = TLCEval(Named(e.a.k, e.a.w, e.a.h, e.a.t)) /\ K' = K /\ GroupOk(e, G')
       [] e.op = "g_even" -> G' = TLCEval(EvenSub(G)) /\ K' = K /\ GroupOk(e, G')
       [] e.op = "g_conj" -> G' = TLCEval(Conjugated(G, e.a.r)) /\ K' = K /\ GroupOk(e, G')
       [] e.op = "g_prod" -> G' = TLCEval(DirectProduct(G, K)) /\ K' = K /\ GroupOk(e, G')
       [] e.op = "g_keep" -> G' = G /\ K' = G
       [] e.op = "g_swap" -> G' = K /\ K' = G /\ GroupOk(e, G')
       [] e.op = "g_cmp" -> /\ UNCHANGED <<G, K>>
            /\ LET eq == G = K lt == GroupLess(G, K) gt == GroupLess(K, G)
               IN Ok(e, [eq |-> eq, ne |-> ~eq, lt |-> lt, gt |-> gt, le |-> ~gt, ge |-> ~lt])
       [] e.op = "g_label" -> /\ UNCHANGED <<G, K>> /\ e.ok
            /\ LET rl == IF Cardinality(G.g) = 1 THEN e.a.r ELSE Least(TLCEval(RightCoset(G, e.a.r)))
               IN e.v.rl = rl /\ e.v.ll = Least(TLCEval(LeftCoset(G, e.a.r)))

\* ---- multiplication tables --------------------------------------------------
\* mt: part ends, rows, the representative of each entry as reported, columns
Class(P, r) == {Mul(x, r) : x \in P}
Padded(S, b) == {Pad(r, b) : r \in S}
Same(x, y) == Mul(x, Inv(y)) \in mt.P
MultOps == {"u_new", "u_pre", "u_post", "u_postc", "u_find", "u_mulpre", "u_mulpost", "u_chain", "u_cmppre", "u_cmppost", "u_cmprow", "u_copy"}
IndexOf(r) == CHOOSE i \in 1..Len(mt.reps) : Same(mt.reps[i], r)
Entry(v, r) == v.i + 1 = IndexOf(r) /\ v.r = mt.reps[v.i + 1]
\* the order is strict and total: equal, or one before the other
Compared(v, q) == v.eq = q /\ v.ne = ~q /\ v.ord \in (IF q THEN {0} ELSE {1, 2})
Mult(e) ==
  /\ e.op \in MultOps /\ UNCHANGED <<G, K, it>>
  /\ CASE e.op = "u_new" ->
            LET P == TLCEval(Padded(Generated(AsSet(e.a.pe)).g, Len(e.a.rows[1]))) IN
            /\ e.ok /\ mt' = [P |-> P, reps |-> e.v.reps, pre |-> <<>>, post |-> <<>>]
            /\ e.v.n = Len(e.v.reps) /\ e.v.g = Cardinality(P) /\ e.v.n * e.v.g = Cardinality(AsSet(e.a.rows))
            /\ AsSet(e.v.reps) \subseteq AsSet(e.a.rows) /\ e.v.b = Len(e.a.rows[1])
            \* one entry for each class
            /\ LET C == TLCEval({Class(P, e.v.reps[i]) : i \in 1..e.v.n}) IN Cardinality(C) = e.v.n
            /\ (e.v.reps[1] = Rounds(e.v.b))
       [] e.op = "u_pre" -> IF \A x \in mt.P : Mul(x, e.a.r) = Mul(e.a.r, x)
                            THEN e.ok /\ mt' = [mt EXCEPT !.pre = Append(@, e.a.r)] /\ e.v = Len(mt'.pre)
                            ELSE Refused(e) /\ mt' = mt
       [] e.op = "u_post" -> e.ok /\ mt' = [mt EXCEPT !.post = Append(@, e.a.r)] /\ e.v = Len(mt'.post)
       [] e.op = "u_postc" -> e.ok /\ mt' = [mt EXCEPT !.post = Append(@, ChangeRow(e.a.c))] /\ e.v = Len(mt'.post)
       [] e.op = "u_find" -> e.ok /\ mt' = mt /\ Entry(e.v, e.a.r) /\ e.v.z = Same(e.a.r, Rounds(Len(e.a.r)))
       [] e.op = "u_mulpre" -> e.ok /\ mt' = mt /\ Entry(e.v, Mul(mt.pre[e.a.k], e.a.r))
       [] e.op = "u_mulpost" -> e.ok /\ mt' = mt /\ Entry(e.v, Mul(e.a.r, mt.post[e.a.k]))
       [] e.op = "u_cmppre" -> e.ok /\ mt' = mt /\ Compared(e.v, mt.pre[e.a.i] = mt.pre[e.a.j])
       [] e.op = "u_cmppost" -> e.ok /\ mt' = mt /\ Compared(e.v, mt.post[e.a.i] = mt.post[e.a.j])
       [] e.op = "u_cmprow" -> e.ok /\ mt' = mt /\ Compared(e.v, Same(e.a.x, e.a.y))
       [] e.op = "u_copy" -> LET p == mt.reps[IndexOf(Mul(e.a.x, e.a.y))] IN Ok(e, [p |-> p, q |-> p, n |-> Len(mt.reps), c |-> FALSE]) /\ mt' = mt
       [] e.op = "u_chain" -> /\ e.ok /\ mt' = mt /\ Len(e.v) = Len(e.a.c)
            /\ LET RECURSIVE F(_, _)
                   F(r, k) == IF k > Len(e.v) THEN TRUE ELSE LET x == TLCEval(Mul(r, mt.post[e.a.c[k]])) IN IF Same(e.v[k], x) THEN F(x, k + 1) ELSE FALSE
               IN F(e.a.r, 1)

Init == /\ s \in 1..Len(Sessions) /\ l = 1 /\ G = Trivial(0) /\ K = Trivial(0)
        /\ it = [n |-> 0, w |-> 0, h |-> 0, t |-> 0] /\ mt = [P |-> {}, reps |-> <<>>, pre |-> <<>>, post |-> <<>>]
Moved(e) == Iterate(e) \/ Group_(e) \/ Mult(e)
            \/ (e.op \notin GroupOps \cup MultOps \cup {"e_begin", "e_end", "e_next", "e_prev"} /\ Stateless(e) /\ UNCHANGED <<G, K, it, mt>>)
Next == \/ l <= Len(Sessions[s]) /\ Moved(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
