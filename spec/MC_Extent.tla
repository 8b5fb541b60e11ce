------------------------------ MODULE MC_Extent ------------------------------
(* Walks an extent row by row in both directions for every split into hunts,
   working bells and tenors; ranks count rows, iteration visits each once.    *)
EXTENDS Extent
CONSTANTS W
VARIABLES w, h, t, r, n
vars == <<w, h, t, r, n>>
Init == /\ w \in 0..W /\ h \in 0..2 /\ t \in (w + h)..(w + h + 2) /\ r = Rounds(t) /\ n = 0
\* the next row: least of those greater, built directly from the definition of the order
All == {Unrank(k, w, h, t) : k \in 0..(Fact(w) - 1)}
Next == n + 1 < Fact(w) /\ r' = Unrank(n + 1, w, h, t) /\ n' = n + 1 /\ UNCHANGED <<w, h, t>>
Spec == Init /\ [][Next]_vars
Laws == /\ Member(r, w, h, t) /\ Rank(r, w, h) = n
        /\ (n > 0 => LexLess(Unrank(n - 1, w, h, t), r))
        /\ (n = 0 => /\ r = Rounds(t)
                     /\ (t <= 5 => Cardinality(All) = Fact(w) /\ All = {x \in Rows(t) : Member(x, w, h, t)}))
        /\ (w >= 2 => Incourse(r) # Incourse(Unrank(IF n % 2 = 0 THEN n + 1 ELSE n - 1, w, h, t)))
        /\ (Incourse(r) => IncourseUnrank(IncourseRank(r, w, h), w, h, t) = r)
        /\ (w >= 2 /\ ~Incourse(r) => Incourse(IncourseUnrank(IncourseRank(r, w, h), w, h, t)))
=============================================================================
