------------------------------- MODULE MC_Row -------------------------------
(* Closed model: every pair of rows of stages 0..N (mixed stages included), and
   every change; the algebraic laws of property R01/C01 are invariants, and each
   state is printed as a script for replay in the real code.                  *)
EXTENDS Change, Json
CONSTANTS N, Emit
VARIABLES x, y
vars == <<x, y>>
AllRows == UNION {Rows(n) : n \in 0..N}
Init == x = <<>> /\ y = <<>>
Next == \E a \in AllRows, b \in AllRows : x = <<>> /\ y = <<>> /\ x' = a /\ y' = b
Spec == Init /\ [][Next]_vars
Laws ==
  LET m == Max2(Len(x), Len(y)) IN
  /\ IsRowSeq(Mul(x, y)) /\ Len(Mul(x, y)) = m
  /\ Div(Mul(x, y), y) = Pad(x, m)
  /\ Mul(Inv(x), x) = Rounds(Len(x)) /\ Mul(x, Inv(x)) = Rounds(Len(x))
  /\ Sign(Mul(x, y)) = Sign(x) * Sign(y)
  /\ (Sign(x) = 1) = (Inversions(x) % 2 = 0)
  /\ IsRounds(Pow(x, Order(x))) /\ \A k \in 1..(Order(x) - 1) : ~IsRounds(Pow(x, k))
  /\ AreConjugate(Pad(x, m), Conj(Pad(x, m), Pad(y, m)))
  /\ (LexLess(x, y) \/ LexLess(y, x)) = (x # y) /\ ~(LexLess(x, y) /\ LexLess(y, x))
  /\ Len(x) = Len(y) => (AreConjugate(x, y) = \E g \in Rows(Len(x)) : Conj(x, g) = y)
ChLaws ==
  y = <<>> => \A c \in Changes(Len(x)) :
     /\ IsChange(c) /\ ApplyCh(ApplyCh(x, c), c) = x
     /\ IsRowSeq(ApplyCh(x, c)) /\ \A i \in 1..Len(x) : LET d == Pos(ApplyCh(x, c), x[i]) - i IN d \in {-1, 0, 1}
     /\ Sign(ApplyCh(x, c)) = Sign(x) * ChSign(c)
     /\ ParseChange(c.n, Chars(ChText(c))) = [ok |-> TRUE, c |-> c]
     /\ FromPlaces(c.n, Places(c)) = [ok |-> TRUE, c |-> c]
     /\ \A w \in 1..(c.n - 1) : LET t == ToggleResult(c, w) IN IsChange(t) /\ (w \in SwapSet(t)) = (w \notin SwapSet(c))
Emitted == (Emit /\ (x # <<>> \/ y # <<>>)) => PrintT("GEN " \o ToJson([x |-> x, y |-> y]))
=============================================================================
