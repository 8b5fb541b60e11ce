---------------------------- MODULE Trace_Siril ----------------------------
(* Accepts recorded runs of gsiril. *)
EXTENDS Siril, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Result(a) == IF a._o.filter THEN GsirilFilter(a._o, a._ms) ELSE Gsiril(a._o)
\* Of a run that was stopped short only the exit status is known
Ev(e) ==
  CASE e.op = "gsiril" -> e.ok /\ \E r \in Exactly(Result(e.a)) : e.v.rc = r.rc /\ e.v.l = r.out.l /\ e.v.c = r.out.c
    [] e.op = "limit" -> e.ok /\ e.v.rc = 2
    [] OTHER -> FALSE
Init == s \in 1..Len(Sessions) /\ l = 1
Next == \/ l <= Len(Sessions[s]) /\ Ev(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED <<s, l>>
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
