------------------------------- MODULE Change -------------------------------
(* A change on n bells: [n, s] with s the increasing sequence of the left-hand
   places of the pairs it swaps (no two overlapping).                        *)
EXTENDS Perm

IsChange(c) == /\ \A i \in 1..Len(c.s) : c.s[i] >= 1 /\ c.s[i] < c.n
               /\ \A i \in 1..(Len(c.s) - 1) : c.s[i] + 2 <= c.s[i + 1]
SwapSet(c) == Range(c.s)
SortedSeq(S) == LET RECURSIVE F(_)
                    F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y
                            IN <<m>> \o F(T \ {m})
                IN F(S)
FromSet(n, S) == [n |-> n, s |-> SortedSeq(S)]
\* all changes on n bells
SwapSets(n) == {S \in SUBSET (1..(n - 1)) : \A x \in S : (x + 1) \notin S}
Changes(n) == {FromSet(n, S) : S \in SwapSets(n)}

PlaceSet(c) == {p \in 1..c.n : p \notin SwapSet(c) /\ (p - 1) \notin SwapSet(c)}
Places(c) == SortedSeq(PlaceSet(c))
\* Where the bell in place p goes
Follow(c, p) == IF p \in SwapSet(c) THEN p + 1 ELSE IF (p - 1) \in SwapSet(c) THEN p - 1 ELSE p
ChangeRow(c) == [p \in 1..c.n |-> Follow(c, p)]
ApplyCh(r, c) == Mul(r, ChangeRow(c))
ChSign(c) == IF Len(c.s) % 2 = 0 THEN 1 ELSE -1
Internal(c) == \E p \in PlaceSet(c) : p > 1 /\ p < c.n
ReverseCh(c) == FromSet(c.n, {c.n - x : x \in SwapSet(c)})
ChText(c) == IF c.n > 0 /\ PlaceSet(c) = {} THEN "X" ELSE RowText(Places(c))
SamePlaces(c, d) == PlaceSet(c) \cap PlaceSet(d) # {}

\* Places given explicitly -> change, or a refusal.  Missing places at lead and
\* lie are implicit; all other places must be given.
FromPlaces(n, pl) ==
  LET inc == \A i \in 1..Len(pl) : pl[i] >= 1 /\ pl[i] <= n /\ (i > 1 => pl[i] > pl[i - 1])
      \* the gaps between successive places must be even
      gaps == \A i \in 2..Len(pl) : (pl[i] - pl[i - 1] - 1) % 2 = 0
      first == IF pl = <<>> THEN n + 1 ELSE pl[1]
      \* an odd gap before the first place has an implicit place at lead
      start == IF pl # <<>> /\ (first - 1) % 2 = 1 THEN 2 ELSE 1
      P == Range(pl) \cup (IF start = 2 THEN {1} ELSE {})
      S == {x \in 1..(n - 1) : x \notin P /\ (x + 1) \notin P /\
              \* x is an odd number of places after the previous place (or the lead)
              LET below == {p \in P : p < x}
                  prev == IF below = {} THEN 0 ELSE CHOOSE p \in below : \A q \in below : q <= p
              IN (x - prev) % 2 = 1}
  IN IF inc /\ gaps THEN [ok |-> TRUE, c |-> FromSet(n, S)] ELSE [ok |-> FALSE, c |-> FromSet(n, {})]
ParseChange(n, cs) ==
  IF cs = <<>> THEN [ok |-> n = 0, c |-> FromSet(n, {})]
  ELSE IF cs \in {<<"X">>, <<"x">>, <<"-">>} THEN FromPlaces(n, <<>>)
  ELSE LET p == ReadBells(cs, 1, <<>>) IN IF p.ok THEN FromPlaces(n, p.seq) ELSE [ok |-> FALSE, c |-> FromSet(n, {})]

\* Toggling the swap of places w, w+1: it is removed if present; otherwise it is
\* added and displaces any swap it overlaps.
ToggleResult(c, w) == IF w \in SwapSet(c) THEN FromSet(c.n, SwapSet(c) \ {w})
                      ELSE FromSet(c.n, (SwapSet(c) \ {w - 1, w + 1}) \cup {w})

ChLess(c, d) == c.n < d.n \/ (c.n = d.n /\ LexLess(c.s, d.s))
=============================================================================
