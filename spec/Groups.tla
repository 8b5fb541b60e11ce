------------------------------- MODULE Groups -------------------------------
(* Groups of rows [b, g]: the set g of rows, all on b bells. *)
EXTENDS Extent, SequencesExt

MaxLen(S) == LET L == {Len(r) : r \in S} IN IF L = {} THEN 0 ELSE CHOOSE m \in L : \A k \in L : k <= m
RECURSIVE Closure(_, _, _)
Closure(done, new, gens) ==
  IF new = {} THEN done
  ELSE LET d == TLCEval(done \cup new) IN TLCEval(Closure(d, {Mul(r, s) : r \in new, s \in gens} \ d, gens))
Generated(gens) == LET b == MaxLen(gens) IN [b |-> b, g |-> Closure({}, {Rounds(b)}, {Pad(r, b) : r \in gens})]
Trivial(n) == [b |-> n, g |-> {Rounds(n)}]
IsGroup(G) == /\ Rounds(G.b) \in G.g /\ \A x, y \in G.g : Div(x, y) \in G.g
Invariants(G) == {p \in 1..G.b : \A r \in G.g : r[p] = p}
EvenSub(G) == [b |-> G.b, g |-> {r \in G.g : Sign(r) = 1}]
Conjugated(G, r) == [b |-> Max2(G.b, Len(r)), g |-> {Conj(x, r) : x \in G.g}]
Shift(r, k) == [i \in 1..(k + Len(r)) |-> IF i <= k THEN i ELSE r[i - k] + k]
DirectProduct(A, B) == [b |-> A.b + B.b, g |-> {Mul(x, Shift(y, A.b)) : x \in A.g, y \in B.g}]
Extent_(w, h, t) == {Unrank(k, w, h, t) : k \in 0..(Fact(w) - 1)}
Named(kind, w, h, t0) ==
  LET t == IF t0 = 0 THEN w + h ELSE t0
      G(S) == Generated({Pad(r, t) : r \in S}) IN
  CASE kind = "sym" -> [b |-> t, g |-> Extent_(w, h, t)]
    [] kind = "alt" -> [b |-> t, g |-> {r \in Extent_(w, h, t) : Incourse(r)}]
    [] kind = "cyc" -> G({Cyclic(w + h, h, 1)})
    [] kind = "cyr" -> G({PlainBobLH(w + h, h)})
    [] kind = "dic" -> G({Cyclic(w + h, h, 1), BackroundsHunt(w, h, t)})
    [] kind = "dir" -> G({PlainBobLH(w + h, h), BackroundsHunt(w, h, t)})
    [] kind = "triv" -> Trivial(w)
RightCoset(G, r) == {Mul(x, r) : x \in G.g}
LeftCoset(G, r) == {Mul(r, x) : x \in G.g}
Least(S) == CHOOSE r \in S : \A s \in S : r = s \/ LexLess(r, s)
\* order of groups: by stage, then by their rows in order
Sorted(S) == SetToSortSeq(S, LexLess)
SeqLess(v, u) ==
  LET n == Min2(Len(v), Len(u))
      D == {i \in 1..n : v[i] # u[i]}
  IN IF D = {} THEN Len(v) < Len(u)
     ELSE LET m == CHOOSE i \in D : \A j \in D : i <= j IN LexLess(v[m], u[m])
GroupLess(A, B) == A.b < B.b \/ (A.b = B.b /\ SeqLess(Sorted(A.g), Sorted(B.g)))
=============================================================================
