-------------------------------- MODULE Search --------------------------------
(* Composition searches.  A touch is a sequence of calls, one ending each lead
   (0 is the plain lead).  It is rung in the parts given by a group P of part
   ends: the rows rung in the lead with head r are {p r x : p in P, x in lead}.
   The oracle is a search over the rows themselves; it knows nothing of false
   lead heads, canonical forms or multiplication tables.                     *)
EXTENDS Method, SequencesExt

\* The rows of a lead, from rounds, and the row its last change starts from
LeadRows(m) == LET q == Moves(m) RECURSIVE F(_, _)
                   F(i, acc) == IF i >= Len(m) THEN acc ELSE F(i + 1, Append(acc, TLCEval(Mul(acc[i], q[i]))))
               IN F(1, <<Rounds(Stage(m))>>)
\* c = 0: the method's own last change
CallHeads(m, calls) ==
  LET R == LeadRows(m) le == R[Len(R)] q == Moves(m) IN
  [c \in 0..Len(calls) |-> Mul(le, IF c = 0 THEN q[Len(q)] ELSE Moves(calls)[c])]
Parts(P, X, r) == {Mul(Mul(p, r), X[i]) : p \in P, i \in 1..Len(X)}

RECURSIVE Dfs(_, _, _, _, _, _)
Dfs(cf, r, rung, k, acc, lastc) ==
  UNION {
    IF Cardinality(new) = cf.size /\ new \cap rung = {}
    THEN IF k < cf.max
         THEN UNION {UNION {Dfs(cf, h, had, k + 1, Append(acc, c), c) : h \in {Mul(r, cf.lh[c])}, had \in {rung \cup new}} : c \in DOMAIN cf.lh}
         ELSE {}
    ELSE IF k >= 1 /\ k >= cf.min /\ (cf.open \/ r \in cf.P) /\ (cf.join => Order(r) = Cardinality(cf.P)) THEN {acc} ELSE {}
    : new \in {Parts(cf.P, cf.X, r)}}
\* min, max in leads; open: touches that need not come round; join: the parts must form one touch
Touches(m, calls, P, min, max, open, join) ==
  UNION {Dfs([X |-> X, lh |-> H, P |-> P, size |-> Cardinality(P) * Len(X), min |-> min, max |-> max, open |-> open,
              join |-> join /\ Cardinality(P) > 1], Rounds(Stage(m)), {}, 0, <<>>, 0)
         : X \in {LeadRows(m)}, H \in {CallHeads(m, calls)}}

Rotation(q, k) == [i \in 1..Len(q) |-> q[((i + k - 1) % Len(q)) + 1]]
Rotations(q) == {Rotation(q, k) : k \in 0..(Len(q) - 1)}
NoRepeats(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
\* exactly one of every class of rotations
Representatives(O, all) ==
  /\ {O[i] : i \in 1..Len(O)} \subseteq all
  /\ \A i, j \in 1..Len(O) : i < j => O[j] \notin Rotations(O[i])
  /\ UNION {Rotations(O[i]) : i \in 1..Len(O)} = all
Found(O, all, P, norot, open, limit) ==
  /\ NoRepeats(O)
  /\ IF limit >= 0 THEN {O[i] : i \in 1..Len(O)} \subseteq all
                        /\ (~norot \/ Cardinality(P) > 1) => Len(O) = Min2(Max2(1, limit), Cardinality(all))
     ELSE IF norot /\ ~open /\ Cardinality(P) = 1 THEN Representatives(O, all)
     ELSE {O[i] : i \in 1..Len(O)} = all

\* ---- plans: a method for each lead head; every lead ends with a call (1, 2, ..) ----
\* Leads are rung from either end, and the plan has no falseness of its own: a touch is
\* true if all its lead heads and lead ends differ.
RECURSIVE PlanDfs(_, _, _, _, _)
PlanDfs(cf, r, had, len, acc) ==
  IF \A i \in 1..Len(cf.plan) : cf.plan[i].r # r THEN {}
  ELSE LET p == CHOOSE i \in 1..Len(cf.plan) : cf.plan[i].r = r
           m == cf.plan[p].m
       IN UNION {
          IF r \in had \/ le \in had
          THEN IF len >= cf.min /\ acc # <<>> /\ IsRounds(r) THEN {acc} ELSE {}
          ELSE IF len < cf.max
               THEN UNION {UNION {PlanDfs(cf, h, had \cup {r, le}, len + Len(m), Append(acc, c)) : h \in {Mul(le, Moves(cf.calls)[c])}} : c \in 1..Len(cf.calls)}
               ELSE {}
          : le \in {Mul(r, LeadRows(m)[Len(m)])}}

\* ---- what touchsearch writes ------------------------------------------------------
\* names[c + 1]: the name of call c
TouchText(q, names, L, ord, comma) ==
  LET one == [i \in 1..Len(q) |-> names[q[i] + 1]]
      k == Len(q)
      RECURSIVE J(_, _)
      J(i, s) == IF i > k * ord THEN s ELSE J(i + 1, s \o (IF i > 1 THEN "," ELSE "") \o one[((i - 1) % k) + 1])
      RECURSIVE K(_, _)
      K(i, s) == IF i > k THEN s ELSE K(i + 1, s \o one[i])
  IN IF comma THEN J(1, "")
     ELSE K(1, "") \o (IF ord > 1 THEN " x" \o ToString(ord) ELSE "") \o "  (" \o ToString(k * L * ord) \o " changes)"
=============================================================================
