---------------------------- MODULE MC_Splices ----------------------------
(* The splices of every pair of short methods: leads of b in place of those of a
   from the lead heads of a coset of the group share no row with the rest, and no
   smaller group will do; the two methods agree on it; the groups kept of methods
   that splice are the classes of the pairs told, whatever their order.        *)
EXTENDS Splices
CONSTANTS N, LEN, PAIRS
Cs == {c \in Changes(N) : c.s # <<>>}
O(k) == [b |-> N, null |-> FALSE, inc |-> k = 1, outc |-> k = 2, half |-> FALSE, same |-> FALSE, pn |-> FALSE, group |-> FALSE, leads |-> -1]
M(q) == [q |-> q, name |-> ""]
\* the letters of methods that are told to splice
Let == {"a", "b", "c", "d"}
Mx(x) == [q |-> <<x>>, name |-> x]
VARIABLES a, b, told
Init == a = <<>> /\ b = <<>> /\ told = <<>>
Next == \/ a = <<>> /\ told = <<>> /\ UNCHANGED told /\ \E p \in [1..LEN -> Cs], q \in [1..LEN -> Cs] : a' = p /\ b' = q
        \/ a = <<>> /\ Len(told) < PAIRS /\ UNCHANGED <<a, b>> /\ \E x, y \in Let, d \in {"1-lead", "3-lead"} : x # y /\ told' = Append(told, <<x, y, d>>)
Spec == Init /\ [][Next]_<<a, b, told>>
Heads == {r \in Rows(N) : r[1] = 1}
Lead(q, h) == {Mul(h, r) : r \in Range(Fal!LeadRows(q))}
Spliced == a # <<>> =>
  LET G == SpliceGroup(O(0), Shared(O(0), Fal!LeadRows(a), Fal!LeadRows(b)))
      H == SpliceGroup(O(0), Shared(O(0), Fal!LeadRows(b), Fal!LeadRows(a)))
      I == SpliceGroup(O(1), Shared(O(1), Fal!LeadRows(a), Fal!LeadRows(b)))
  IN /\ G = H /\ (I # {<<>>} => I \subseteq G) /\ (\A g \in I : Sign(g) = 1)
     /\ Bind(Shared(O(2), Fal!LeadRows(a), Fal!LeadRows(b)), LAMBDA T : T # {} => SpliceGroup(O(2), T) \subseteq {g \in G : Sign(g) = 1})
     /\ \A h \in Heads : LET K == {Mul(h, g) : g \in G} IN
          (UNION {Lead(a, k) : k \in K}) \cap (UNION {Lead(b, k) : k \in Heads \ K}) = {}
     /\ \A S \in SUBSET Heads : (S # {} /\ (UNION {Lead(a, k) : k \in S}) \cap (UNION {Lead(b, k) : k \in Heads \ S}) = {}
                                  /\ (UNION {Lead(b, k) : k \in S}) \cap (UNION {Lead(a, k) : k \in Heads \ S}) = {})
          => \A k \in S : {Mul(k, g) : g \in G} \subseteq S
RECURSIVE Table(_, _)
Table(t, q) == IF q = <<>> THEN t ELSE Table(KeepS(t, Mx(q[1][1]), Mx(q[1][2]), q[1][3]), Tail(q))
Joined(d) == LET P == {<<told[i][1], told[i][2]>> : i \in {j \in 1..Len(told) : told[j][3] = d}}
                 RECURSIVE Grow(_) Grow(S) == LET T == S \cup UNION {{p[1], p[2]} : p \in {z \in P : z[1] \in S \/ z[2] \in S}} IN IF T = S THEN S ELSE Grow(T)
             IN {Grow({p[1]}) : p \in P}
Classes == LET t == Table(<<>>, told) IN
  \A d \in {"1-lead", "3-lead"} :
    LET E == {i \in 1..Len(t) : t[i].d = d} IN
    /\ {{x.name : x \in t[i].s} : i \in E} = Joined(d)
    /\ Cardinality(E) = Cardinality(Joined(d))
===============================================================================
