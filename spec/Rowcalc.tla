------------------------------ MODULE Rowcalc ------------------------------
(* The row calculator: expressions over rows, sets of rows, groups, integers.
   An expression is a sequence of tokens; its value is a sequence of rows.
     diff   ::= product { "-" product }                 rows of the first not in the second
     product ::= power { ("*" | "/" | "\\") power }     all the products, the first factor varying fastest
     power  ::= atom [ "^" ( [+-] int | power ) ]       powers, conjugates
     atom   ::= row | "(" diff ")" | "{" diff {"," diff} "}" | "<" diff {"," diff} ">" | source
   a source is "$(command)" or "<(file)" and gives the rows its text holds. *)
EXTENDS Groups, Change

Ops == {"-", "+", "*", "/", "\\", "^", "(", ")", "{", "}", "<", ">", ","}
IsSource(t) == Len(t) >= 2 /\ SubSeq(t, 1, 2) \in {"$(", "<("}
IsLit(t) == t \notin Ops /\ ~IsSource(t)
IsDigits(t) == t # "" /\ \A i \in 1..Len(t) : DigitVal(SubSeq(t, i, i)) >= 0
IntOf(t) == LET RECURSIVE V(_)
                V(i) == IF i = 0 THEN 0 ELSE 10 * V(i - 1) + DigitVal(SubSeq(t, i, i)) IN V(Len(t))
HasTreble(t) == \E i \in 1..Len(t) : SubSeq(t, i, i) = "1"
\* a row as written: cfg.b bells, changes allowed if cfg.ch
RowOf(t, cfg) ==
  IF cfg.ch THEN
    LET c == ParseChange(cfg.b, Chars(t)) IN
    IF c.ok THEN [ok |-> TRUE, r |-> ChangeRow(c.c)]
    ELSE LET p == ParseRow(Chars(t)) IN [ok |-> p.ok /\ Len(p.row) = cfg.b, r |-> p.row]
  ELSE LET p == ParseRow(Chars(IF HasTreble(t) THEN t ELSE "1" \o t)) IN [ok |-> p.ok, r |-> p.row]

No == [ok |-> FALSE, next |-> 0, node |-> [k |-> "bad"]]
Yes(n, next) == [ok |-> TRUE, next |-> next, node |-> n]
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE ""
Bin(op, l, r) == [k |-> "bin", op |-> op, l |-> l, r |-> r]
RECURSIVE PDiff(_, _, _), PProd(_, _, _), PPow(_, _, _), PAtom(_, _, _), MoreDiff(_, _, _), MoreProd(_, _, _), PList(_, _, _)
Exactly(x) == {TLCEval(x)}
PDiff(ts, i, cfg) == MoreDiff(ts, TLCEval(PProd(ts, i, cfg)), cfg)
MoreDiff(ts, l, cfg) ==
  IF ~l.ok \/ Tok(ts, l.next) # "-" THEN l
  ELSE CHOOSE x \in {IF r.ok THEN MoreDiff(ts, Yes(Bin("-", l.node, r.node), r.next), cfg) ELSE No : r \in Exactly(PProd(ts, l.next + 1, cfg))} : TRUE
PProd(ts, i, cfg) == MoreProd(ts, TLCEval(PPow(ts, i, cfg)), cfg)
MoreProd(ts, l, cfg) ==
  IF ~l.ok \/ Tok(ts, l.next) \notin {"*", "/", "\\"} THEN l
  ELSE CHOOSE x \in {IF r.ok THEN MoreProd(ts, Yes(Bin(ts[l.next], l.node, r.node), r.next), cfg) ELSE No : r \in Exactly(PPow(ts, l.next + 1, cfg))} : TRUE
\* after "^" a lone digit is a number, other digits are a number only if they are no row
ReadsAsInt(t, cfg) == IsDigits(t) /\ (Len(t) = 1 \/ ~RowOf(t, cfg).ok)
EndsPower(t) == t \in {"", "-", "*", "/", "\\", ")", "}", ">", ","}
Power(l, n) == [k |-> "pow", l |-> l, n |-> n]
PPow(ts, i, cfg) ==
  CHOOSE x \in {
    IF ~l.ok \/ Tok(ts, l.next) # "^" THEN l
    ELSE LET j == l.next + 1  t == Tok(ts, j)  u == Tok(ts, j + 1) IN
         IF t \in {"+", "-"} THEN IF IsDigits(u) /\ EndsPower(Tok(ts, j + 2)) THEN Yes(Power(l.node, IF t = "-" THEN -IntOf(u) ELSE IntOf(u)), j + 2) ELSE No
         ELSE IF ReadsAsInt(t, cfg) /\ EndsPower(u) THEN Yes(Power(l.node, IntOf(t)), j + 1)
         ELSE CHOOSE y \in {IF r.ok THEN Yes(Bin("^", l.node, r.node), r.next) ELSE No : r \in Exactly(PPow(ts, j, cfg))} : TRUE
    : l \in Exactly(PAtom(ts, i, cfg))} : TRUE
PAtom(ts, i, cfg) ==
  LET t == Tok(ts, i) IN
  IF t = "(" THEN
    CHOOSE y \in {IF r.ok /\ Tok(ts, r.next) = ")" THEN Yes(r.node, r.next + 1) ELSE No : r \in Exactly(PDiff(ts, i + 1, cfg))} : TRUE
  ELSE IF t \in {"{", "<"} THEN
    CHOOSE y \in {IF r.ok /\ Tok(ts, r.next) = (IF t = "{" THEN "}" ELSE ">") THEN Yes([k |-> IF t = "{" THEN "set" ELSE "group", of |-> r.node], r.next + 1) ELSE No
                  : r \in Exactly(PList(ts, i + 1, cfg))} : TRUE
  ELSE IF t = "" \/ t \in Ops THEN No
  ELSE IF IsSource(t) THEN Yes([k |-> "src", t |-> t], i + 1)
  ELSE CHOOSE y \in {IF p.ok THEN Yes([k |-> "row", r |-> p.r], i + 1) ELSE No : p \in Exactly(RowOf(t, cfg))} : TRUE
PList(ts, i, cfg) ==
  CHOOSE y \in {
    IF ~h.ok THEN No
    ELSE IF Tok(ts, h.next) # "," THEN [h EXCEPT !.node = <<h.node>>]
    ELSE CHOOSE z \in {IF r.ok THEN [r EXCEPT !.node = <<h.node>> \o r.node] ELSE No : r \in Exactly(PList(ts, h.next + 1, cfg))} : TRUE
    : h \in Exactly(PDiff(ts, i, cfg))} : TRUE
Parse(ts, cfg) == CHOOSE y \in {IF r.ok /\ r.next = Len(ts) + 1 THEN r ELSE No : r \in Exactly(PDiff(ts, 1, cfg))} : TRUE

\* ---- values; src maps a source to its rows
RECURSIVE ReadsStdin(_)
ReadsStdin(n) == CASE n.k = "row" -> FALSE [] n.k = "src" -> n.t = "<(-)" [] n.k = "pow" -> ReadsStdin(n.l)
  [] n.k = "bin" -> ReadsStdin(n.l) \/ ReadsStdin(n.r) [] OTHER -> \E i \in 1..Len(n.of) : ReadsStdin(n.of[i])
Op2(op, a, b) == CASE op = "*" -> Mul(a, b) [] op = "/" -> Div(a, b) [] op = "\\" -> Mul(Inv(a), b) [] op = "^" -> Conj(a, b)
\* every pair of rows: the first varies fastest, unless it is read from standard input
Pairs(op, A, B, leftSlow) ==
  LET n == Len(A) * Len(B) IN
  [i \in 1..n |-> IF leftSlow THEN Op2(op, A[((i - 1) \div Len(B)) + 1], B[((i - 1) % Len(B)) + 1])
                  ELSE Op2(op, A[((i - 1) % Len(A)) + 1], B[((i - 1) \div Len(A)) + 1])]
Cat(qs) == LET RECURSIVE C(_) C(i) == IF i > Len(qs) THEN <<>> ELSE qs[i] \o C(i + 1) IN C(1)
RECURSIVE Val(_, _)
Val(n, src) ==
  CASE n.k = "row" -> <<n.r>>
    [] n.k = "src" -> src[n.t]
    [] n.k = "pow" -> [i \in 1..Len(Val(n.l, src)) |-> Pow(TLCEval(Val(n.l, src))[i], n.n)]
    [] n.k = "bin" -> CHOOSE x \in {IF n.op = "-" THEN SelectSeq(A, LAMBDA r : r \notin Range(B)) ELSE Pairs(n.op, A, B, ReadsStdin(n.l))
                                    : A \in Exactly(Val(n.l, src)), B \in Exactly(Val(n.r, src))} : TRUE
    [] n.k = "set" -> Cat(TLCEval([i \in 1..Len(n.of) |-> Val(n.of[i], src)]))
    [] n.k = "group" -> Sorted(TLCEval(Generated(Range(Cat(TLCEval([i \in 1..Len(n.of) |-> Val(n.of[i], src)]))))).g)

\* ---- what rowcalc prints: rows extended to, or cut to, cfg.b bells
Fits(r, b) == b = 0 \/ Len(r) <= b \/ IsRowSeq(SubSeq(r, 1, b))
ToStage(r, b) == IF b = 0 THEN r ELSE IF Len(r) <= b THEN Pad(r, b) ELSE SubSeq(r, 1, b)
Printed(rows, b, count) ==   \* [ok, out]
  LET bad == {i \in 1..Len(rows) : ~Fits(rows[i], b)}
      n == IF bad = {} THEN Len(rows) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
  IN [ok |-> bad = {}, out |-> IF count THEN (IF bad = {} THEN <<ToString(n)>> ELSE <<>>) ELSE [i \in 1..n |-> RowText(ToStage(rows[i], b))]]
OneExpr(ts, cfg, src, count) ==
  CHOOSE y \in {IF ~p.ok THEN [ok |-> FALSE, out |-> <<>>] ELSE Printed(TLCEval(Val(p.node, src)), cfg.b, count) : p \in Exactly(Parse(ts, cfg))} : TRUE
\* several expressions: as arguments the first failure ends the run; from standard input each line stands alone
RECURSIVE Run(_, _, _, _, _)
Run(es, cfg, src, count, lines) ==
  IF es = <<>> THEN [ok |-> TRUE, out |-> <<>>]
  ELSE CHOOSE y \in {IF ~r.ok /\ ~lines THEN r
                     ELSE CHOOSE z \in {[ok |-> q.ok, out |-> r.out \o q.out] : q \in Exactly(Run(Tail(es), cfg, src, count, lines))} : TRUE
                     : r \in Exactly(OneExpr(es[1], cfg, src, count))} : TRUE
=============================================================================
