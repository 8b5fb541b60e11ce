------------------------------ MODULE MC_Change ------------------------------
(* Editing machine: starts with any change on n bells and toggles swaps.  The
   state is the change; every transition is printed for replay.               *)
EXTENDS Change, Json
CONSTANTS N, Emit
VARIABLES c, from, w
vars == <<c, from, w>>
Init == c \in UNION {Changes(n) : n \in 0..N} /\ from = c /\ w = 0
Next == \E p \in 1..(c.n - 1) : w = 0 /\ w' = p /\ from' = c /\ c' = ToggleResult(c, p)
Spec == Init /\ [][Next]_vars
Legal == IsChange(c) /\ Range(Places(c)) = {p \in 1..c.n : Follow(c, p) = p}
Toggled == w > 0 => ((w \in SwapSet(c)) = (w \notin SwapSet(from)))
Emitted == (Emit /\ w > 0) => PrintT("GEN " \o ToJson([n |-> from.n, pl |-> Places(from), w |-> w]))
=============================================================================
