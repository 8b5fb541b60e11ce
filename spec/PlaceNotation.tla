--------------------------- MODULE PlaceNotation ---------------------------
(* Place notation: blocks of changes separated by commas.  A block marked "&"
   is followed by all but its last change in reverse; "+" marks a plain block.
   Changes are crosses or places; changes are separated by dots or space.    *)
EXTENDS Change

Space == {" ", "\t", "\n"}
Cross == {"X", "x", "-"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Alnum == Digits \cup Letters

RECURSIVE SkipWs(_, _)
SkipWs(cs, i) == IF i <= Len(cs) /\ cs[i] \in Space THEN SkipWs(cs, i + 1) ELSE i
SkipSep(cs, i, c) == LET j == SkipWs(cs, i) IN IF j <= Len(cs) /\ cs[j] = c THEN SkipWs(cs, j + 1) ELSE j
\* The end of a "{n}" starting at i (0: not closed)
RECURSIVE BraceEnd(_, _)
BraceEnd(cs, i) == IF i > Len(cs) THEN 0 ELSE IF cs[i] = "}" THEN i + 1 ELSE BraceEnd(cs, i + 1)
\* The end of the places starting at i
RECURSIVE PlacesEnd(_, _)
PlacesEnd(cs, i) ==
  IF i > Len(cs) THEN i
  ELSE IF cs[i] = "{" THEN LET j == BraceEnd(cs, i + 1) IN IF j = 0 THEN 0 ELSE PlacesEnd(cs, j)
  ELSE IF cs[i] \in Alnum \ Cross THEN PlacesEnd(cs, i + 1)
  ELSE i
Bad == [ok |-> FALSE, chs |-> <<>>, next |-> 0]
RECURSIVE BlockFrom(_, _, _, _)
BlockFrom(n, cs, i, acc) ==
  IF i > Len(cs) \/ cs[i] \notin (Alnum \cup {"-", "{"}) THEN [ok |-> TRUE, chs |-> acc, next |-> i]
  ELSE IF cs[i] \in Cross THEN BlockFrom(n, cs, SkipSep(cs, i + 1, "."), Append(acc, FromPlaces(n, <<>>).c))
  ELSE LET j == PlacesEnd(cs, i) IN
       IF j = 0 THEN Bad
       ELSE LET p == ParseChange(n, SubSeq(cs, i, j - 1)) IN
            IF p.ok THEN BlockFrom(n, cs, SkipSep(cs, j, "."), Append(acc, p.c)) ELSE Bad
ReverseSeq(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Mirror(b) == IF b = <<>> THEN b ELSE b \o ReverseSeq(SubSeq(b, 1, Len(b) - 1))
RECURSIVE PNFrom(_, _, _, _)
PNFrom(n, cs, i, acc) ==
  IF i > Len(cs) THEN [ok |-> TRUE, chs |-> acc]
  ELSE LET marked == cs[i] \in {"&", "+"}
           b == BlockFrom(n, cs, IF marked THEN SkipSep(cs, i + 1, ".") ELSE i, <<>>)
           all == acc \o (IF cs[i] = "&" THEN Mirror(b.chs) ELSE b.chs)
       IN IF ~b.ok THEN [ok |-> FALSE, chs |-> <<>>]
          ELSE IF b.next > Len(cs) THEN [ok |-> TRUE, chs |-> all]
          ELSE IF cs[b.next] # "," THEN [ok |-> FALSE, chs |-> <<>>]
          ELSE PNFrom(n, cs, SkipSep(cs, b.next, ","), all)
ParsePN(n, cs) == PNFrom(n, cs, SkipWs(cs, 1), <<>>)

\* ---- writing -------------------------------------------------------------------
DOTS == 1  EXTERNAL == 2  UCROSS == 4  LCROSS == 8  DASH == 16  SYMMETRY == 32  FULL == 64  OMITLH == 128  PLUS == 256
Has(f, b) == (f \div b) % 2 = 1
CrossText(f) == IF Has(f, UCROSS) THEN "X" ELSE IF Has(f, LCROSS) THEN "x" ELSE IF Has(f, DASH) THEN "-" ELSE "X"
\* The places worth writing
Written(c, f) ==
  LET p == Places(c) IN
  IF Has(f, EXTERNAL) \/ Len(p) = 1 THEN p
  ELSE LET q == IF p[1] = 1 THEN Tail(p) ELSE p
           \* places beyond the last symbol are always written
           r == IF q # <<>> /\ q[Len(q)] = c.n /\ c.n <= MaxBells THEN SubSeq(q, 1, Len(q) - 1) ELSE q
       IN IF r = <<>> THEN <<1>> ELSE r
RECURSIVE SectionText(_, _, _, _)
SectionText(q, f, needdot, first) ==
  IF q = <<>> THEN ""
  ELSE IF PlaceSet(q[1]) = {} THEN (IF Has(f, DOTS) /\ ~first THEN "." ELSE "") \o CrossText(f) \o SectionText(Tail(q), f, FALSE, FALSE)
  ELSE (IF (needdot \/ Has(f, DOTS)) /\ ~first THEN "." ELSE "") \o RowText(Written(q[1], f)) \o SectionText(Tail(q), f, TRUE, FALSE)
Section(q, f) == SectionText(q, f, FALSE, TRUE)

\* Palindromic about change i (0-based): changes equally far either side agree
PalAbout(q, i) == LET n == Len(q) IN \A j \in 1..(n - 1) : q[((i + j) % n) + 1] = q[((i - j + n) % n) + 1]
IsSym(q) == Len(q) % 2 = 0 /\ (Len(q) = 0 \/ PalAbout(q, (Len(q) \div 2) - 1))
SymPoint(q) == LET n == Len(q)
                   S == {i \in 0..((n \div 2) - 1) : PalAbout(q, i)}
               IN IF n % 2 = 1 \/ S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j
Format(q, f) ==
  LET n == Len(q)
      half == (n \div 2) - 1
      full == Has(f, SYMMETRY) /\ Has(f, FULL) /\ ~Has(f, OMITLH)
      sym == IF ~Has(f, SYMMETRY) \/ n <= 2 THEN -1
             ELSE IF IsSym(q) THEN half ELSE IF full THEN SymPoint(q) ELSE -1
      plus == IF Has(f, PLUS) THEN "+" ELSE ""
  IN IF sym = -1 THEN plus \o Section(IF Has(f, OMITLH) THEN SubSeq(q, 1, n - 1) ELSE q, f)
     ELSE (IF sym # 0 THEN "&" ELSE plus) \o Section(SubSeq(q, 1, sym + 1), f)
          \o (IF Has(f, OMITLH) THEN "" ELSE
              "," \o (IF sym # half THEN "&" ELSE plus) \o Section(SubSeq(q, 2 * sym + 2, (n \div 2) + sym + 1), f))
=============================================================================
