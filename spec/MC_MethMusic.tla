---------------------------- MODULE MC_MethMusic ----------------------------
(* Music scores of every short method: a course scores what its leads score,
   a lead what its halves score, forwards or backwards; scores are linear.    *)
EXTENDS MethFormat
CONSTANTS N, LENS
Pats == <<"<3-runs>", "12*", "*[34]?", "5,-2:*43", "0,3:?2*", "-1:<queens>", "*">>
Gs == {g \in [1..N -> 1..N] : \A i, j \in 1..N : g[i] = g[j] => i = j}
Cs == {g \in Gs : \A i \in 1..N : g[g[i]] = i /\ g[i] - i \in {-1, 0, 1}}
P(t) == [type |-> "", t |-> t, toks |-> <<>>, given |-> FALSE]
K(ty, r) == [type |-> ty, t |-> "", toks |-> <<RowText(r)>>, given |-> TRUE]
Score(m, opts) == MusicScore([b |-> N, m |-> m, mus |-> opts])
VARIABLES len, m, r, p
Init == len \in LENS /\ p \in 1..Len(Pats) /\ m = <<>> /\ r = Rounds(N)
Next == m = <<>> /\ UNCHANGED <<len, p>> /\ \E q \in [1..len -> Cs], h \in {x \in Gs : x[1] = 1} : m' = q /\ r' = h
Spec == Init /\ [][Next]_<<len, m, r, p>>
At1(i) == LET RECURSIVE A(_) A(k) == IF k = 0 THEN r ELSE Mul(A(k - 1), m[k]) IN TLCEval(A(i))
Lh == LET RECURSIVE A(_) A(k) == IF k = 0 THEN Rounds(N) ELSE Mul(A(k - 1), m[k]) IN A(Len(m))
T == P(Pats[p])
S1(ty, x) == Score(m, <<K(ty, x), T>>)
Scores == m # <<>> =>
  /\ S1("lead", r) = S1("halflead", r) + S1("2halflead", At1(Len(m) \div 2))
  /\ S1("course", r) = Mus!SumSeq([k \in 1..Leads([i \in 1..Len(m) |-> ToCh(m[i])]) |-> S1("lead", Mul(r, PowNat(Lh, k - 1)))])
  /\ S1("rhalflead", At1((Len(m) \div 2) - 1)) = S1("halflead", r)
  /\ S1("2rhalflead", At1(Len(m) - 1)) = S1("2halflead", At1(Len(m) \div 2))
  /\ Score(m, <<K("lead", r), T, P("12*")>>) = S1("lead", r) + Score(m, <<K("lead", r), P("12*")>>)
  /\ Score(m, <<K("lead", r), K("lead", Rounds(N)), T>>) = S1("lead", r) + S1("lead", Rounds(N))
  /\ Score(m, <<K("lead", r), T, K("course", r), P("12*")>>) = S1("lead", r) + Score(m, <<K("course", r), P("12*")>>)
  /\ Score(m, <<T>>) = S1("course", Rounds(N))
===============================================================================
