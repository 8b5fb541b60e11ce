-------------------------------- MODULE Perm --------------------------------
(* Rows as permutations.  A row on n bells is the sequence of the bells (1..n)
   ringing in each place.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b

Rounds(n) == [i \in 1..n |-> i]
Range(f) == {f[x] : x \in DOMAIN f}
IsRowSeq(r) == Range(r) = 1..Len(r)
Rows(n) == {r \in [1..n -> 1..n] : Range(r) = 1..n}

\* Position of the bells of a longer stage are their home places.
At(r, i) == IF i <= Len(r) THEN r[i] ELSE i
Pad(r, n) == [i \in 1..Max2(n, Len(r)) |-> At(r, i)]

\* r * s : the row whose ith place holds the bell r has in the place named by s
Mul(r, s) == [i \in 1..Max2(Len(r), Len(s)) |-> At(r, At(s, i))]
Pos(r, b) == CHOOSE i \in 1..Len(r) : r[i] = b
Inv(r) == [b \in 1..Len(r) |-> Pos(r, b)]
Div(r, s) == Mul(r, Inv(s))
RECURSIVE PowNat(_, _)
PowNat(r, k) == IF k = 0 THEN Rounds(Len(r))
                ELSE IF k % 2 = 1 THEN TLCEval(Mul(r, PowNat(r, k - 1)))
                ELSE LET h == TLCEval(PowNat(r, k \div 2)) IN TLCEval(Mul(h, h))
Pow(r, k) == IF k < 0 THEN PowNat(Inv(r), -k) ELSE PowNat(r, k)
Conj(x, r) == Mul(Mul(Inv(r), x), r)

IsRounds(r) == \A i \in 1..Len(r) : r[i] = i

\* The cycle of bell b as a sequence b, r[b], r[r[b]], ...
RECURSIVE CycleFrom(_, _, _)
CycleFrom(r, b, acc) == IF r[acc[Len(acc)]] = b THEN acc
                        ELSE CycleFrom(r, b, Append(acc, r[acc[Len(acc)]]))
Cycle(r, b) == CycleFrom(r, b, <<b>>)
CycleLen(r, b) == Len(Cycle(r, b))
CycleSets(r) == {Range(Cycle(r, b)) : b \in 1..Len(r)}
NumCycles(r) == Cardinality(CycleSets(r))
Order(r) == LET S == {Cardinality(c) : c \in CycleSets(r)}
                RECURSIVE F(_)
                F(T) == IF T = {} THEN 1 ELSE LET x == CHOOSE y \in T : TRUE IN Lcm(x, F(T \ {x}))
            IN F(S)
Inversions(r) == Cardinality({p \in (1..Len(r)) \X (1..Len(r)) : p[1] < p[2] /\ r[p[1]] > r[p[2]]})
Sign(r) == IF (Len(r) - NumCycles(r)) % 2 = 0 THEN 1 ELSE -1

\* Cycle types agree: sizes with multiplicities
CycleType(r) == [k \in 1..Len(r) |-> Cardinality({c \in CycleSets(r) : Cardinality(c) = k})]
AreConjugate(x, y) == Len(x) = Len(y) /\ CycleType(x) = CycleType(y)

\* Lexicographic order on rows (shorter prefix first)
LexLess(r, s) ==
  LET n == Min2(Len(r), Len(s))
      D == {i \in 1..n : r[i] # s[i]}
  IN IF D = {} THEN Len(r) < Len(s)
     ELSE LET m == CHOOSE i \in D : \A j \in D : i <= j IN r[m] < s[m]

\* Named rows
Queens(n) == IF n <= 2 THEN Rounds(n) ELSE
   LET h == (n + 1) \div 2 IN [i \in 1..n |-> IF i <= h THEN 2 * i - 1 ELSE 2 * (i - h)]
Kings(n) == IF n <= 2 THEN Rounds(n) ELSE
   LET h == (n + 1) \div 2 IN [i \in 1..n |-> IF i <= h THEN 2 * (h - i) + 1 ELSE 2 * (i - h)]
Tittums(n) == LET h == (n + 1) \div 2 IN
   [i \in 1..n |-> IF i % 2 = 1 THEN (i + 1) \div 2 ELSE h + i \div 2]
Backrounds(n) == [i \in 1..n |-> n + 1 - i]
BackroundsHunt(nw, nh, nt) == LET t == IF nt = 0 THEN nw + nh ELSE nt IN
   [i \in 1..t |-> IF i > nh /\ i <= nh + nw THEN 2 * nh + nw + 1 - i ELSE i]
Cyclic(n, h, c) == [i \in 1..n |-> IF i <= h THEN i ELSE h + 1 + ((i - h - 1 + c) % (n - h))]
\* First plain bob lead head with h hunt bells: the working bells h+1..n each
\* move to the next place of the hunting cycle.
SwapPairs(n, from) == [i \in 1..n |->
   IF i < from THEN i
   ELSE IF (i - from) % 2 = 0 THEN (IF i + 1 <= n THEN i + 1 ELSE i) ELSE i - 1]
PlainBobLH(n, h) == Mul(SwapPairs(n, h + 1), SwapPairs(n, h + 2))

\* Which power of the plain bob lead head (with h hunts) r is: 0 if none (or rounds)
WhichPBLH(r, h) ==
  LET n == Len(r)
      S == {i \in 1..(n - h - 1) : Pow(PlainBobLH(n, h), i) = r}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
LeadingFixed(r) == LET S == {i \in 1..Len(r) : r[i] # i} IN
  IF S = {} THEN Len(r) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1

\* ---- text ------------------------------------------------------------------
Symbols == <<"1","2","3","4","5","6","7","8","9","0","E","T","A","B","C","D","F",
             "G","H","J","K","L","M","N","P","Q","R","S","U","V","W","Y","Z">>
Lower == <<"1","2","3","4","5","6","7","8","9","0","e","t","a","b","c","d","f",
             "g","h","j","k","l","m","n","p","q","r","s","u","v","w","y","z">>
MaxBells == Len(Symbols)
SymIndex(c) == LET S == {i \in 1..MaxBells : Symbols[i] = c \/ Lower[i] = c} IN
   IF c \in {"I", "i"} THEN 1 ELSE IF c \in {"O", "o"} THEN 10
   ELSE IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
BellText(b) == IF b <= MaxBells THEN Symbols[b] ELSE "{" \o ToString(b) \o "}"
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN "" ELSE
   IF Len(ss) = 1 THEN ss[1] ELSE
   LET h == Len(ss) \div 2 IN ConcatAll(SubSeq(ss, 1, h)) \o ConcatAll(SubSeq(ss, h + 1, Len(ss)))
RowText(r) == ConcatAll([i \in 1..Len(r) |-> BellText(r[i])])
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

DigitVal(c) == LET D == <<"0","1","2","3","4","5","6","7","8","9">>
                   S == {i \in 1..10 : D[i] = c} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : TRUE) - 1
\* Reads bells from a sequence of characters: [ok, seq].  "{n}" names bell n.
RECURSIVE ReadBells(_, _, _)
ReadBrace(cs, i) ==   \* cs[i] is the first character after "{" : [ok, val, next]
  LET RECURSIVE G(_, _, _)
      G(j, v, any) == IF j > Len(cs) THEN [ok |-> FALSE, val |-> 0, next |-> j]
                      ELSE IF DigitVal(cs[j]) >= 0 THEN G(j + 1, Min2(v * 10 + DigitVal(cs[j]), 100000), TRUE)
                      ELSE [ok |-> any /\ cs[j] = "}" /\ v >= 1 /\ v <= 256, val |-> v, next |-> j + 1]
  IN G(i, 0, FALSE)
ReadBells(cs, i, acc) ==
  IF i > Len(cs) THEN [ok |-> TRUE, seq |-> acc]
  ELSE IF cs[i] = "{" THEN
    LET b == ReadBrace(cs, i + 1) IN
      IF b.ok THEN ReadBells(cs, b.next, Append(acc, b.val)) ELSE [ok |-> FALSE, seq |-> acc]
  ELSE IF SymIndex(cs[i]) = 0 THEN [ok |-> FALSE, seq |-> acc]
  ELSE ReadBells(cs, i + 1, Append(acc, SymIndex(cs[i])))
ParseRow(cs) == LET p == ReadBells(cs, 1, <<>>) IN
   IF p.ok /\ IsRowSeq(p.seq) THEN [ok |-> TRUE, row |-> p.seq] ELSE [ok |-> FALSE, row |-> <<>>]

\* Cycle notation: cycles in order of their least bell, each from that bell on
RECURSIVE CyclesSeq(_, _, _)
CyclesSeq(r, b, done) == IF b > Len(r) THEN <<>>
   ELSE IF b \in done THEN CyclesSeq(r, b + 1, done)
   ELSE <<Cycle(r, b)>> \o CyclesSeq(r, b + 1, done \cup Range(Cycle(r, b)))
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)
CycleText(r) == JoinWith([i \in 1..Len(CyclesSeq(r, 1, {})) |-> RowText(CyclesSeq(r, 1, {})[i])], ",")
=============================================================================
