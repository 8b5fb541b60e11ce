----------------------------- MODULE MethFilter -----------------------------
(* methsearch as a filter: of a list of methods it keeps those that a search
   with the same options would list (or, inverted, the others).               *)
EXTENDS MethSearch
Lib == INSTANCE Library
\* the methods in the list: those of stage b (0: any that say theirs) that can be read
Parsed(e) == Bind(ParsePN(e.b, Chars(e.pn)), LAMBDA p : [ok |-> p.ok, b |-> e.b, m |-> [i \in 1..Len(p.chs) |-> ChangeRow(p.chs[i])], payload |-> e.f.payload[1]])
Given(lines, b) == LET q == Lib!Lite(lines, b, FALSE, <<>>) IN SelectSeq([i \in 1..Len(q) |-> Parsed(q[i])], LAMBDA p : p.ok)
\* the options for a method of b bells and n changes, where they have been left open
For(o, b, n) == [o EXCEPT !.b = b, !.back = IF o.b = 0 THEN b ELSE o.back, !.n = IF o.U = 0 /\ o.n = 0 THEN n ELSE o.n]
Kept(o, inv, p) == \E oo \in Exactly(For(o, p.b, Len(p.m))) : Len(p.m) = LeadLen(oo) /\ (Lists(oo, p.m) <=> ~inv)
Filter(o, inv, lines) == Bind(Given(lines, o.b), LAMBDA q : SelectSeq(q, LAMBDA p : Kept(o, inv, p)))
FText(p) == MText(p.m) \o "\t" \o p.payload
=============================================================================
