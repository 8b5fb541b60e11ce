-------------------------- MODULE Trace_MethSearch --------------------------
(* Accepts recorded runs of methsearch. *)
EXTENDS MethSearch, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Ev(e) ==
  /\ e.op = "search" /\ e.ok
  /\ \E S \in Exactly(Search(e.a._o)) : \E T \in Exactly([i \in 1..Len(S) |-> MText(S[i])]) :
       \* in a random order: all of them, or as many as the limit, but each once
       /\ IF e.a._rand THEN Len(e.v.l) = Len(First(T, e.a._lim)) /\ \E U \in Exactly({e.v.l[i] : i \in 1..Len(e.v.l)}) : Cardinality(U) = Len(e.v.l) /\ U \subseteq {T[i] : i \in 1..Len(T)}
          ELSE e.v.l = First(T, e.a._lim)
       /\ e.v.rc = 0 \/ (e.v.rc = 1 /\ S = <<>>)
Init == s \in 1..Len(Sessions) /\ l = 1
Next == \/ l <= Len(Sessions[s]) /\ Ev(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED <<s, l>>
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
