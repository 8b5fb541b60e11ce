---------------------------- MODULE MC_Rowcalc ----------------------------
(* Laws of the row calculator over every small expression: printing an expression and parsing it gives it back,
   token sequences accepted are just those, and the operators obey their algebra. *)
EXTENDS Rowcalc
CONSTANTS MAXLEN
VARIABLES ts, e1, e2, e3
vars == <<ts, e1, e2, e3>>
CFG == [b |-> 0, ch |-> FALSE]
NOSRC == [t \in {"<(-)"} |-> <<<<2, 1>>>>]
Alphabet == {"231", "2", "-", "*", "^", "(", ")", "{", "}", ","}
R(x) == [k |-> "row", r |-> x]
Leaves == {R(<<2, 3, 1>>), R(<<2, 1, 3>>), [k |-> "set", of |-> <<R(<<2, 3, 1>>), R(<<1, 3, 2>>)>>], [k |-> "group", of |-> <<R(<<2, 1, 3>>)>>]}
Level(S) == S \cup {Bin(op, a, b) : op \in {"-", "*", "/", "\\", "^"}, a \in S, b \in S} \cup {Power(a, n) : a \in S, n \in {-1, 2}}
Depth1 == Level(Leaves)
Prec(n) == IF n.k = "bin" THEN (CASE n.op = "-" -> 1 [] n.op \in {"*", "/", "\\"} -> 2 [] n.op = "^" -> 3) ELSE IF n.k = "pow" THEN 3 ELSE 4
RECURSIVE Show(_, _)
Wrap(n, p) == IF Prec(n) < p THEN <<"(">> \o Show(n, 0) \o <<")">> ELSE Show(n, 0)
ShowList(q) == LET RECURSIVE F(_) F(i) == Show(q[i], 0) \o (IF i = Len(q) THEN <<>> ELSE <<",">> \o F(i + 1)) IN F(1)
Show(n, p) ==
  CASE n.k = "row" -> <<RowText(n.r)>>
    [] n.k = "set" -> <<"{">> \o ShowList(n.of) \o <<"}">>
    [] n.k = "group" -> <<"<">> \o ShowList(n.of) \o <<">">>
    [] n.k = "pow" -> Wrap(n.l, 4) \o <<"^">> \o (IF n.n < 0 THEN <<"-", ToString(-n.n)>> ELSE <<ToString(n.n)>>)
    [] n.k = "bin" -> IF n.op = "^" THEN Wrap(n.l, 4) \o <<"^">> \o Wrap(n.r, 3)
                      ELSE Wrap(n.l, Prec(n)) \o <<n.op>> \o Wrap(n.r, Prec(n) + 1)
V(n) == Val(n, NOSRC)
None == R(<<1>>)
\* ts ranges over every token sequence up to MAXLEN; (e1,e2,e3) over expressions
Init == \/ ts = <<>> /\ e1 = None /\ e2 = None /\ e3 = None
        \/ ts = <<"(">> /\ e1 \in Depth1 /\ e2 \in Leaves /\ e3 \in Leaves
Next == /\ e1 = None /\ Len(ts) < MAXLEN /\ \E t \in Alphabet : ts' = Append(ts, t)
        /\ UNCHANGED <<e1, e2, e3>>
Spec == Init /\ [][Next]_vars
ShowParses == e1 # None =>
  \A n \in {e1, Bin("*", e1, e2), Bin("-", e2, e1), Bin("^", e2, e1), Bin("/", e2, e1), Bin("^", e1, e2), Power(e1, -1), [k |-> "set", of |-> <<e1, e2>>], [k |-> "group", of |-> <<e2, e3>>]} :
     \E p \in Exactly(Parse(Show(n, 0), CFG)) : p.ok /\ p.node = n
\* whatever parses, shows as tokens that parse to the same (brackets and signs may differ), and brackets balance
Accepted == e1 = None /\ Len(ts) > 0 =>
  \E p \in Exactly(Parse(ts, CFG)) : p.ok =>
     /\ \E q \in Exactly(Parse(Show(p.node, 0), CFG)) : q.ok /\ q.node = p.node
     /\ Len(Show(p.node, 0)) <= Len(ts)
     /\ Cardinality({i \in 1..Len(ts) : ts[i] = "("}) = Cardinality({i \in 1..Len(ts) : ts[i] = ")"})
     /\ ts[1] \notin {"-", "*", "^", ")", "}", ","} /\ ts[Len(ts)] \notin {"-", "*", "^", "(", "{", ","}
Laws == e1 # None =>
  /\ V(Bin("*", Bin("*", e1, e2), e3)) = V(Bin("*", e1, Bin("*", e2, e3)))
  /\ Range(V(Bin("^", e1, Bin("*", e2, e3)))) = Range(V(Bin("^", Bin("^", e1, e2), e3)))
  /\ Len(V(Bin("/", e1, e2))) = Len(V(e1)) * Len(V(e2))
  /\ Range(V(Bin("\\", e2, e1))) = Range(V(Bin("*", Power(e2, -1), e1)))
  /\ Range(V(Bin("/", e1, e2))) = Range(V(Bin("*", e1, Power(e2, -1))))
  /\ V(Bin("-", e1, e1)) = <<>>
  /\ Range(V(Bin("-", Bin("-", e1, e2), e3))) = Range(V(e1)) \ (Range(V(e2)) \cup Range(V(e3)))
  /\ V(Bin("-", e1, Bin("-", e2, e2))) = V(e1)
  /\ V(e1) # <<>> => \E g \in Exactly(V([k |-> "group", of |-> <<e1, e2>>])) : Range(V(e1)) \subseteq Range(g) /\ \A i, j \in 1..Len(g) : Mul(g[i], g[j]) \in Range(g)
  /\ V([k |-> "set", of |-> <<e1, e2>>]) = V(e1) \o V(e2)
=============================================================================
