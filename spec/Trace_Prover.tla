---------------------------- MODULE Trace_Prover ----------------------------
EXTENDS Prover, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, lv, fi, tainted
vars == <<s, l, lv, fi, tainted>>
Range(f) == {f[x] : x \in DOMAIN f}
\* what is observed after each operation
Seen(e, v) ==
  /\ v.size = [k \in 1..Len(lv') |-> SizeAt(lv', k)]
  /\ v.dups = [k \in 1..Len(lv') |-> DupsAt(lv', k)]
  /\ v.truth = [k \in 1..Len(lv') |-> TruthAt(lv', k)]
  /\ (~tainted' => /\ Len(v.fi) = Cardinality(Range(v.fi))
                   /\ Range(v.fi) = (IF fi' THEN ReportAt(lv', Len(lv')) ELSE {}))
Same == UNCHANGED <<fi, tainted>>
Falses(v, max) == {r \in RowsIn(v) : Count(v, r) > max}
Step(e) ==
  CASE e.op = "p_new" -> lv' = <<NewLevel(e.a.m)>> /\ fi' = (e.a.f = 1) /\ tainted' = FALSE /\ e.ok /\ Seen(e, e.v)
    [] e.op = "p_add" -> lv' = Add(lv, e.a.r) /\ Same /\ e.ok /\ Seen(e, e.v) /\ e.v.rv = TruthAt(lv', Len(lv'))
    [] e.op = "p_remove" -> /\ Same
         /\ IF CanRemove(lv, e.a.r) THEN lv' = Remove(lv, e.a.r) /\ e.ok /\ Seen(e, e.v) ELSE lv' = lv /\ ~e.ok /\ e.v = "error"
    [] e.op = "p_count" -> lv' = lv /\ Same /\ e.ok /\ Seen(e, e.v) /\ e.v.k = Count(Recorded(lv, Len(lv)), e.a.r)
    [] e.op = "p_branch" -> lv' = Branch(lv) /\ Same /\ e.ok /\ Seen(e, e.v)
    \* a branch reports into its parent's report, which keeps what it wrote there
    [] e.op = "p_drop" -> /\ lv' = Drop(lv) /\ fi' = fi
                          /\ tainted' = (tainted \/ ReportAt(lv, Len(lv)) # ReportAt(lv', Len(lv')))
                          /\ e.ok /\ Seen(e, e.v)
    [] e.op = "p_disable" -> lv' = Disable(lv) /\ Same /\ e.ok /\ Seen(e, e.v)
    [] e.op = "p_proof" -> /\ UNCHANGED <<lv, fi, tainted>> /\ e.ok
         /\ LET all == e.a.t \o e.a.u
                v == [i \in DOMAIN all |-> [r |-> all[i], l |-> i]]
                rv == e.a.m = -1 \/ Falses(v, e.a.m) = {}
            IN /\ e.v.rv = rv /\ e.v.same /\ e.v.first = (IF rv THEN "True" ELSE "False")
               /\ IF e.a.q = 1 \/ rv THEN e.v.fi = <<>>
                  ELSE /\ Len(e.v.fi) = Cardinality(Range(e.v.fi))
                       /\ Range(e.v.fi) = {[r |-> r, l |-> LineList(v, r)] : r \in Falses(v, e.a.m)}
Init == s \in 1..Len(Sessions) /\ l = 1 /\ lv = <<NewLevel(1)>> /\ fi = FALSE /\ tainted = FALSE
Next == \/ l <= Len(Sessions[s]) /\ Step(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
