-------------------------- MODULE Trace_MethFormat --------------------------
(* Accepts recorded runs of methsearch with formats, requirements and counts. *)
EXTENDS MethFormat, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Ev(e) ==
  /\ e.op = "format" /\ e.ok /\ e.v.rc = 0
  /\ e.v.text = Output([o |-> e.a._o, inv |-> e.a._inv, lines |-> e.a.lines] @@ e.a._w)
Init == s \in 1..Len(Sessions) /\ l = 1
Next == \/ l <= Len(Sessions[s]) /\ Ev(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED <<s, l>>
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
