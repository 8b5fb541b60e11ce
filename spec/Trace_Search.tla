----------------------------- MODULE Trace_Search -----------------------------
(* Accepts recorded runs of the composition searches and of touchsearch.       *)
EXTENDS Search, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
vars == <<s, l>>
B(x) == x % 2 = 1
Inf == 1000000
\* flags as in table_search: 1 ignore rotations, 2 mutually true parts, 4 length in changes, 8 open
LeadRange(min, max, unit) == <<(min + unit - 1) \div unit, IF max < 0 THEN Inf ELSE max \div unit>>
Run(e) ==
  LET a == e.a  f == a.f
      P == {a.pe[i] : i \in 1..Len(a.pe)}
      unit == IF B(f \div 4) THEN Len(a.m) * Cardinality(P) ELSE 1
      rg == LeadRange(a.min, a.max, unit)
  IN /\ e.op = "s_run" /\ e.ok
     /\ \E all \in {Touches(a.m, a.c, P, rg[1], rg[2], B(f \div 8), ~B(f \div 2))} :
          Found(e.v, all, P, B(f), B(f \div 8), a.limit)
EndRow(m, calls, q) == LET H == CallHeads(m, calls) RECURSIVE F(_, _)
                           F(i, r) == IF i > Len(q) THEN r ELSE F(i + 1, TLCEval(Mul(r, H[q[i]])))
                       IN F(1, Rounds(Stage(m)))
\* touchsearch: the lines may come in any order
SetOfSeq(q) == {q[i] : i \in 1..Len(q)}
HasOpt(a, o) == \E i \in 1..Len(a) : a[i] = o
CountLines(opts, n) == IF HasOpt(opts, "--raw-count") THEN (IF HasOpt(opts, "-q") THEN <<>> ELSE <<"">>) \o <<ToString(n)>>
                       ELSE IF HasOpt(opts, "-c") THEN (IF HasOpt(opts, "-q") THEN <<>> ELSE <<"">>) \o <<"Found " \o ToString(n) \o " touches">>
                       ELSE <<>>
\* v.out: the lines; all: the touches, T(q) their text
Report(e, all, T(_), norot, limit) ==
  LET o == e.v.out  opts == e.a.opts
      tail == Len(CountLines(opts, 0))
      k == Len(o) - tail
      lines == {o[i] : i \in 1..k}
      byText == {T(q) : q \in all}
      classes == {Rotations(q) : q \in all}
      n == IF norot THEN Cardinality(classes) ELSE Cardinality(all)
      m == IF limit < 0 THEN n ELSE Min2(Max2(limit, 1), n)
  IN /\ e.ok /\ e.v.rc = 0
     /\ k >= 0 /\ SubSeq(o, k + 1, Len(o)) = CountLines(opts, m)
     /\ IF HasOpt(opts, "-q") THEN k = 0
        ELSE /\ k = m /\ Cardinality(lines) = k /\ lines \subseteq byText
             /\ (norot /\ limit < 0) => \A C \in classes : Cardinality({T(q) : q \in C} \cap lines) = 1
Cli(e) ==
  LET a == e.a
      P == {a.pe[i] : i \in 1..Len(a.pe)}
      L == Len(a.m)
      rg == LeadRange(a.min, a.max, L * Cardinality(P))
  IN /\ e.op = "s_cli"
     /\ \E all \in {Touches(a.m, a.c, P, rg[1], rg[2], FALSE, ~HasOpt(a.opts, "-m"))} :
          Report(e, all, LAMBDA q : TouchText(q, a.names, L, Order(EndRow(a.m, a.c, q)), HasOpt(a.opts, "-g")),
                  HasOpt(a.opts, "-r") /\ Cardinality(P) = 1, a.limit)
Plan(e) ==
  LET a == e.a
      cf == [plan |-> a.plan, calls |-> a.c, min |-> a.min, max |-> IF a.max < 0 THEN Inf ELSE a.max]
      Len2(q) == LET RECURSIVE F(_, _, _)
                     F(i, r, n) == IF i > Len(q) THEN n ELSE
                        LET p == CHOOSE j \in 1..Len(a.plan) : a.plan[j].r = r
                            m == a.plan[p].m IN F(i + 1, TLCEval(Mul(Mul(r, LeadRows(m)[Len(m)]), Moves(a.c)[q[i]])), n + Len(m))
                 IN F(1, Rounds(a.n), 0)
      T(q) == LET RECURSIVE K(_, _, _)
                  K(i, c, t) == IF i > Len(q) THEN t ELSE K(i + 1, c, t \o (IF c /\ i > 1 THEN "," ELSE "") \o a.names[q[i]])
              IN IF HasOpt(a.opts, "-g") THEN K(1, TRUE, "") ELSE K(1, FALSE, "") \o "  (" \o ToString(Len2(q)) \o " changes)"
  IN e.op = "s_plan" /\ \E all \in {PlanDfs(cf, Rounds(a.n), {}, 0, <<>>)} : Report(e, all, T, FALSE, a.limit)
Init == s \in 1..Len(Sessions) /\ l = 1
Next == \/ l <= Len(Sessions[s]) /\ (Run(Sessions[s][l]) \/ Cli(Sessions[s][l]) \/ Plan(Sessions[s][l])) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
