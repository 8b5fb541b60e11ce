---------------------------- MODULE MC_SirilOps ----------------------------
(* The operators of gsiril: how they bind, and what they compute.             *)
EXTENDS Siril
CONSTANTS RANGE, OPS
VARIABLES t, grown

Opts == [bells |-> 4, ext |-> 1, rounds |-> <<>>, lo |-> 0, hi |-> 0, mask |-> "", strs |-> <<>>, defs |-> <<>>, mods |-> <<>>,
         prove |-> <<>>, src |-> <<>>, noread |-> FALSE, E |-> FALSE, quiet |-> 0, inter |-> FALSE, one |-> FALSE, detb |-> FALSE,
         filter |-> FALSE, trall |-> FALSE, tr |-> <<>>, files |-> <<>>, lib |-> <<>>, lead |-> "m", lh |-> "lh", pay |-> "", whole |-> FALSE,
         ms |-> FALSE, ci |-> FALSE]
Begin == ProofOf(Start(Opts).ec).st

\* The documented table, loosest first
Table == << {","}, {"||"}, {"&&"}, {"==", "!=", "<", ">", "<=", ">="}, {"&"}, {"<<", ">>"}, {"+", "-"}, {"*", ".", "/", "%"} >>
Operators == UNION {Table[i] : i \in 1..Len(Table)}
LevelOf(o) == CHOOSE i \in 1..Len(Table) : o \in Table[i]
LeftAssoc(o) == o \in {"+", "-", "*", ".", "/", "%"}
X(i) == SymE(<<"a", "b", "c", "d">>[i])
Shapes2(o, p) == {Bin(o, Bin(p, X(1), X(2)), X(3)), Bin(o, X(1), Bin(p, X(2), X(3)))}
Shapes3(o, p, q) ==
  {Bin(o, Bin(p, Bin(q, X(1), X(2)), X(3)), X(4)), Bin(o, Bin(p, X(1), Bin(q, X(2), X(3))), X(4)), Bin(o, Bin(p, X(1), X(2)), Bin(q, X(3), X(4))),
   Bin(o, X(1), Bin(p, Bin(q, X(2), X(3)), X(4))), Bin(o, X(1), Bin(p, X(2), Bin(q, X(3), X(4))))}
Unary == {[n |-> "!", x |-> X(1)], [n |-> "~", x |-> X(1)], [n |-> "rep", k |-> 2, x |-> X(1)], [n |-> "defined", var |-> "a"]}
Nums == {[n |-> "nums", a |-> a, b |-> b] : a, b \in 0..(2 * RANGE)}
Rws == {[n |-> "row", r |-> r] : r \in Rows(4)}

Init == t \in Operators \cup {"none"} /\ grown = FALSE
Next == /\ ~grown /\ grown' = TRUE
        /\ IF t = "none" THEN t' \in Nums \cup Rws \cup {Bin(o, x, X(2)) : o \in Operators, x \in Unary} \cup {Bin(o, X(2), x) : o \in Operators, x \in Unary}
           ELSE t' \in UNION {Shapes2(t, p) : p \in Operators} \cup (IF OPS < 3 THEN {} ELSE UNION {Shapes3(t, p, q) : p \in Operators, q \in Operators})
Spec == Init /\ [][Next]_<<t, grown>>

------------------------------------------------------------------------------
T1(k, s) == <<[t |-> k, s |-> s]>>
IsBin(x) == x.n \in Operators
RECURSIVE Show(_)
InPar(x, o, left) == IsBin(x) /\ (LevelOf(x.n) < LevelOf(o) \/ (LevelOf(x.n) = LevelOf(o) /\ left # LeftAssoc(o)))
Arg(x, o, left) == IF InPar(x, o, left) THEN T1("op", "(") \o Show(x) \o T1("op", ")") ELSE Show(x)
\* with no brackets that are not needed
Show(x) ==
  IF IsBin(x) THEN Arg(x.x, x.n, TRUE) \o T1("op", x.n) \o Arg(x.y, x.n, FALSE)
  ELSE CASE x.n = "sym" -> T1("name", x.s)
         [] x.n \in {"!", "~"} -> T1("op", x.n) \o Show(x.x)
         [] x.n = "rep" -> T1("num", "2") \o Show(x.x)
         [] x.n = "defined" -> T1("name", "defined") \o T1("name", x.var)
Trees == grown /\ t.n \notin {"nums", "row"}
Binds == Trees => LET r == PE(Show(t), 4) IN r.ok /\ r.e = t
Minus == {"+", "-"}
\* Only brackets that are not needed can be left out
RECURSIVE Bare(_)
Bare(x) == IF IsBin(x) THEN Bare(x.x) \o T1("op", x.n) \o Bare(x.y) ELSE Show(x)
Needed == Trees => (PE(Bare(t), 4).e = t) = (Show(t) = Bare(t))

Lit(k) == IF k >= 0 THEN Num(k) ELSE Bin("-", Num(0), Num(0 - k))
Value(op, a, b) == IntV(Bin(op, Lit(a), Lit(b)), Begin)
Truth(op, a, b) == Test(Bin(op, Lit(a), Lit(b)), Begin)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Arithmetic == (grown /\ t.n = "nums") =>
  LET a == t.a - RANGE  b == t.b - RANGE IN
  /\ Value("+", a, b).v = a + b /\ Value("-", a, b).v = a - b /\ Value("*", a, b).v = a * b
  /\ Value("/", a, b).k = Value("%", a, b).k
  /\ (Value("/", a, b).k = "ok") = (b # 0)
  /\ b # 0 => LET q == Value("/", a, b).v r == Value("%", a, b).v IN (q * b) + r = a /\ Abs(r) < Abs(b) /\ (r = 0 \/ (r < 0) = (a < 0))
  /\ Truth("<", a, b).v = (a < b) /\ Truth(">=", a, b).v = (a >= b) /\ Truth("<=", a, b).v = ~Truth(">", a, b).v
  /\ Truth("==", a, b).v = (a = b) /\ Truth("!=", a, b).v = (a # b)
RowFns == (grown /\ t.n = "row") =>
  LET st == [Begin EXCEPT !.r = t.r]
      f(fn, i) == IntV([n |-> "call", fn |-> fn, of |-> <<Num(i)>>], st) IN
  /\ \A i \in 1..4 : f("at", i).v = t.r[i] /\ f("at", f("pos", i).v).v = i
  /\ \A i \in {0, 5, 9} : f("at", i).k = "err"
=============================================================================
