------------------------------ MODULE Falseness ------------------------------
(* Falseness of leads and courses of methods (changes q). *)
EXTENDS Groups, Json, IOUtils
Bit(f, b) == (f \div b) % 2 = 1
RECURSIVE RowsOf(_, _)
RowsOf(q, k) == IF k = 0 THEN <<Rounds(q[1].n)>>    \* rows 0..k of the plain lead
                ELSE LET v == TLCEval(RowsOf(q, k - 1)) IN Append(v, ApplyCh(v[k], q[k]))
LeadRows(q) == RowsOf(q, Len(q) - 1)
Part(v, flags) == IF Bit(flags, 4) THEN Range(SubSeq(v, 1, Len(v) \div 2)) ELSE Range(v)
Wanted(f, flags) == /\ (Bit(flags, 2) \/ (f # <<>> /\ f[1] = 1))
                    /\ (Bit(flags, 1) => Sign(f) = 1) /\ (Bit(flags, 8) => Sign(f) = -1)
\* lead heads f such that the lead from f has a row of b where the lead from rounds has one of a
FalseHeads(A, B, flags) == LET P == TLCEval(Part(A, flags)) Q == TLCEval({Inv(y) : y \in Part(B, flags)}) IN
   {f \in TLCEval({Mul(x, y) : x \in P, y \in Q}) : Wanted(f, flags)}
FalseGroup(A, flags) == LET T == FalseHeads(A, A, flags) IN
   IF Bit(flags, 8) THEN Generated({Div(x, y) : x, y \in T}) ELSE Generated(T)
\* course heads of courses false against the plain course: treble and tenor home
TenorsTogether(r) == \A i \in 7..Len(r) : r[i] = i
PowersOf(r) == {PowNat(r, k) : k \in 0..(Order(r) - 1)}
\* (quantifiers over one-element sets make TLC evaluate their element once)
FalseCourseHeads(q, flags) ==
  UNION {UNION {
    {c \in {Mul(Mul(t[1], t[2]), t[3]) : t \in {t \in L \X F \X L : t[1][t[2][t[3][q[1].n]]] = q[1].n}} :
        /\ (Bit(flags, 1) => Sign(c) = 1) /\ (Bit(flags, 2) => TenorsTogether(c))}
    : L \in {PowersOf(v[Len(v)])}, F \in {FalseHeads(SubSeq(v, 1, Len(q)), SubSeq(v, 1, Len(q)), 0)}}
    : v \in {TLCEval(RowsOf(q, Len(q)))}}
\* names: <<row of the first six bells, name>> in the published table
Names == JsonDeserialize("falseness_names.json")
NameOn(nm, b) == IF b = 8 THEN SubSeq(nm, 1, 1) ELSE IF b = 10 /\ nm = "D1" THEN "B1" ELSE nm
NameMap == [x \in {Names[i][1] : i \in 1..Len(Names)} |-> Names[CHOOSE i \in 1..Len(Names) : Names[i][1] = x][2]]
SymbolOf(r) ==
  LET b == Len(r) IN
  IF b < 6 THEN "" ELSE IF TenorsTogether(r) THEN LET x == SubSeq(r, 1, 6) IN (IF x \in DOMAIN NameMap THEN NameOn(NameMap[x], b) ELSE "")
  ELSE IF b # 8 THEN ""
  ELSE IF r = <<1,7,6,2,3,5,4,8>> THEN "X" ELSE IF r = <<1,7,6,4,5,3,2,8>> THEN "Y"
  ELSE IF r = <<1,7,6,3,2,4,5,8>> THEN "Z" ELSE ""
\* names sort as text
NameOrder == <<"A","B","B1","B2","C","C1","C2","D","D1","D2","E","E1","E2","F","F1","F2","G","H","H1","H2","I","K","K1","K2","K3","L","L1","L2","M","N","N1","N2","N3","O","O1","O2","P","P1","P2","R","S","T","T1","T2","U","U1","U2","X","Y","Z","a","a1","a2","b","c","d","e","f">>
SymbolSet(q, flags) == {SymbolOf(c) : c \in FalseCourseHeads(q, flags)} \ {""}
SymbolText(q, flags) == CHOOSE t \in {ConcatAll(SelectSeq(NameOrder, LAMBDA x : x \in S)) : S \in {SymbolSet(q, flags)}} : TRUE
NamesKnown == \A i \in 1..Len(Names) : \E j \in 1..Len(NameOrder) : NameOrder[j] = Names[i][2]
SymbolsRefused(q, flags) == LET n == q[1].n IN
   \/ (~Bit(flags, 2) /\ n # 8) \/ n % 2 = 1
   \/ \E v \in {RowsOf(q, Len(q))} : \E lh \in {v[Len(v)]} : LeadingFixed(lh) = 0 \/ WhichPBLH(lh, LeadingFixed(lh)) = 0
\* the name of the group a treble-fixed row belongs to, up to lead heads and reversal
Lookups(r) ==
  LET b == Len(r)
      D == TLCEval(Generated({PlainBobLH(b, 1), [i \in 1..b |-> IF i <= 2 THEN i ELSE IF i % 2 = 1 THEN (IF i = b THEN b ELSE i + 1) ELSE i - 1]}).g)
      S == TLCEval({Mul(Mul(x, r), y) : x, y \in D})
  IN {SymbolOf(s) : s \in S \cup {Inv(s) : s \in S}} \ {""}
=============================================================================
