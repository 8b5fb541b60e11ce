--------------------------- MODULE Trace_Splices ---------------------------
(* Accepts recorded runs of splices. *)
EXTENDS Splices, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Ev(e) == e.op = "splices" /\ e.ok /\ e.v.rc = 0 /\ e.v.l = SplicesOut(e.a._o)
Init == s \in 1..Len(Sessions) /\ l = 1
Next == \/ l <= Len(Sessions[s]) /\ Ev(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED <<s, l>>
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
