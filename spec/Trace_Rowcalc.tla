--------------------------- MODULE Trace_Rowcalc ---------------------------
(* Accepts recorded runs of rowcalc. *)
EXTENDS Rowcalc, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Src(a) == [t \in {a._src[i].t : i \in 1..Len(a._src)} |-> (CHOOSE x \in Range(a._src) : x.t = t).rows]
Ev(e) ==
  /\ e.op = "rowcalc" /\ e.ok
  /\ \E r \in Exactly(Run(e.a.exprs, [b |-> e.a.b, ch |-> e.a.ch], Src(e.a), e.a.count, e.a.lines)) :
       e.v.out = r.out /\ (e.v.rc = 0) = r.ok /\ e.v.rc \in {0, 1}
Init == s \in 1..Len(Sessions) /\ l = 1
Next == \/ l <= Len(Sessions[s]) /\ Ev(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED <<s, l>>
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
