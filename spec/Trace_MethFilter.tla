-------------------------- MODULE Trace_MethFilter --------------------------
(* Accepts recorded runs of methsearch as a filter. *)
EXTENDS MethFilter, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Ev(e) ==
  /\ e.op = "filter" /\ e.ok /\ e.v.rc = 0
  /\ \E F \in Exactly(First(Filter(e.a._o, e.a._inv, e.a.lines), e.a._lim)) : e.v.l = [i \in 1..Len(F) |-> FText(F[i])]
Init == s \in 1..Len(Sessions) /\ l = 1
Next == \/ l <= Len(Sessions[s]) /\ Ev(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED <<s, l>>
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
