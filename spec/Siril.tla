-------------------------------- MODULE Siril --------------------------------
(* The language of the touch prover gsiril: its grammar, over a sequence of
   tokens [t |-> kind, s |-> text], and what running a program does: the rows
   rung, what is printed, which proofs succeed and the exit status.

   Kinds of token: "name", "num", "str" (text within the quotes), "tr" (a
   transposition), "re" (a row pattern), "pn" (place notation with its leading
   & or +), "op" and "nl" (a line break).                                    *)
EXTENDS Method, Music

Exactly(x) == {TLCEval(x)}
Bind(x, F(_)) == CHOOSE y \in {F(z) : z \in {TLCEval(x)}} : TRUE

------------------------------------------------------------------------------
(* Reading expressions.  Results are [ok, e]. *)
Good(e) == [ok |-> TRUE, e |-> e]
Bad0 == [ok |-> FALSE, e |-> [n |-> "nop"]]
IfOk(x, F(_)) == Bind(x, LAMBDA z : IF z.ok THEN F(z.e) ELSE z)
Is(tk, s) == tk.t = "op" /\ tk.s = s
Word(tk, s) == tk.t = "name" /\ tk.s = s
Opens == {"(", "[", "{"}
Closes == {")", "]", "}"}
Deeper(tk, d) == IF tk.t # "op" THEN d ELSE IF tk.s \in Opens THEN d + 1 ELSE IF tk.s \in Closes THEN d - 1 ELSE d
\* Where one of these operators is, outside all brackets: the first or the last
\* place, 0 if nowhere, -1 if the brackets do not match
RECURSIVE FindF(_, _, _, _), FindL(_, _, _, _, _)
FindF(ts, ops, i, d) ==
  IF i > Len(ts) THEN IF d = 0 THEN 0 ELSE -1
  ELSE IF ts[i].t = "op" /\ d = 0 /\ ts[i].s \in ops THEN i
  ELSE FindF(ts, ops, i + 1, Deeper(ts[i], d))
FindL(ts, ops, i, d, at) ==
  IF i > Len(ts) THEN IF d = 0 THEN at ELSE -1
  ELSE IF ts[i].t = "op" /\ d = 0 /\ ts[i].s \in ops THEN FindL(ts, ops, i + 1, d, i)
  ELSE FindL(ts, ops, i + 1, Deeper(ts[i], d), at)
First(ts, ops) == FindF(ts, ops, 1, 0)
Last(ts, ops) == FindL(ts, ops, 1, 0, 0)
\* Is the whole within one pair of brackets?  "yes", "no" or "bad"
Enclosed(ts, o, c) ==
  IF Len(ts) < 2 \/ ~Is(ts[1], o) \/ ~Is(ts[Len(ts)], c) THEN "no"
  ELSE LET D[i \in 0..Len(ts)] == IF i = 0 THEN 0 ELSE D[i - 1] + (IF Is(ts[i], o) THEN 1 ELSE IF Is(ts[i], c) THEN -1 ELSE 0)
       IN IF \E i \in 1..(Len(ts) - 1) : D[i] = 0 THEN "no" ELSE IF D[Len(ts)] # 0 THEN "bad" ELSE "yes"
Front(ts, i) == SubSeq(ts, 1, i - 1)
Rest(ts, i) == SubSeq(ts, i + 1, Len(ts))
RECURSIVE NoSemis(_)
NoSemis(ts) == IF ts # <<>> /\ Is(ts[Len(ts)], ";") THEN NoSemis(Front(ts, Len(ts))) ELSE ts

IntOf(s) == NumAt(Chars(s), 1, 0)[1]
\* Bells given relative to the number of bells: {N}, {N-1}, {12}
NoSpace(cs) == SelectSeq(cs, LAMBDA c : c # " ")
BraceBell(n, cs) ==
  LET q == NoSpace(cs) IN
  IF q = <<>> THEN 0
  ELSE IF q[1] # "N" THEN NumAt(q, 1, 0)[1]
  ELSE IF Len(q) = 1 THEN n
  ELSE IF q[2] # "-" THEN 0 ELSE n - NumAt(q, 3, 0)[1]
RECURSIVE Braces(_, _, _, _)
Braces(n, cs, i, acc) ==
  IF i > Len(cs) THEN [ok |-> TRUE, e |-> acc]
  ELSE IF cs[i] # "{" THEN Braces(n, cs, i + 1, Append(acc, cs[i]))
  ELSE LET j == BraceEnd(cs, i + 1) IN
       IF j = 0 THEN [ok |-> FALSE, e |-> acc]
       ELSE LET b == BraceBell(n, SubSeq(cs, i + 1, j - 2)) IN
            IF b < 1 \/ b > MaxBells THEN [ok |-> FALSE, e |-> acc] ELSE Braces(n, cs, j, Append(acc, Symbols[b]))
\* Ranges of bells: 1..4
Between(a, b) == IF a < b THEN [i \in 1..(b - a - 1) |-> Symbols[a + i]] ELSE IF a > b THEN [i \in 1..(a - b - 1) |-> Symbols[a - i]] ELSE <<>>
RECURSIVE Ranges(_, _, _)
Ranges(cs, i, acc) ==
  IF i > Len(cs) THEN [ok |-> TRUE, e |-> acc]
  ELSE IF i > 1 /\ i < Len(cs) - 1 /\ cs[i] = "." /\ cs[i + 1] = "." THEN
    LET a == SymIndex(cs[i - 1]) b == SymIndex(cs[i + 2]) IN
    IF a = 0 \/ b = 0 THEN [ok |-> FALSE, e |-> acc] ELSE Ranges(cs, i + 2, acc \o Between(a, b))
  ELSE Ranges(cs, i + 1, Append(acc, cs[i]))
ExpandBells(n, cs) == IfOk(Braces(n, cs, 1, <<>>), LAMBDA q : IF Len(q) < 4 THEN [ok |-> TRUE, e |-> q] ELSE Ranges(q, 1, <<>>))
ReadPN(n, s) ==
  IF n <= 0 THEN Bad0
  ELSE IfOk(ExpandBells(n, Chars(s)), LAMBDA cs :
         Bind(ParsePN(n, cs), LAMBDA p : IF p.ok THEN Good([n |-> "pn", chs |-> p.chs, name |-> ""]) ELSE Bad0))
ReadTr(n, s) ==
  IF n <= 0 THEN Bad0
  ELSE Bind(ParseRow(Chars(s)), LAMBDA p :
         IF ~p.ok \/ Len(p.row) > n THEN Bad0 ELSE Good([n |-> "tr", row |-> Mul(Rounds(n), p.row)]))
ReadRe(n, s) ==
  IfOk(ExpandBells(n, Chars(s)), LAMBDA cs :
    LET t == ConcatAll(cs)
        allowed(c) == c \in {"*", "?", "[", "]"} \/ \E b \in 1..n : Symbols[b] = c IN
    IF (\A i \in 1..Len(cs) : allowed(cs[i])) /\ ReadPat(t).ok THEN Good([n |-> "pat", p |-> ReadPat(t).toks]) ELSE Bad0)
AnyRow == [n |-> "pat", p |-> <<[k |-> "star", s |-> {}]>>]
Str(s) == [n |-> "str", s |-> s, ip |-> TRUE, par |-> FALSE, nonl |-> FALSE, ab |-> FALSE]
Plain(s) == [Str(s) EXCEPT !.ip = FALSE]
Bin(op, x, y) == [n |-> op, x |-> x, y |-> y]

\* Precedence, loosest first; the operators of a level and whether the first or
\* the last of them splits the expression.  Arithmetic is left associative.
Levels == << <<{","}, FALSE>>, <<{"||"}, FALSE>>, <<{"&&"}, FALSE>>, <<{"==", "!=", "<", ">", "<=", ">="}, FALSE>>,
             <<{"&"}, FALSE>>, <<{"<<", ">>"}, FALSE>>, <<{"+", "-"}, TRUE>>, <<{"*", ".", "/", "%"}, TRUE>> >>

RECURSIVE PE(_, _), PLevel(_, _, _), PUnary(_, _), PAlts(_, _, _), PArgs(_, _, _), PList(_, _, _)
\* an expression on n bells
PE(ts, n) ==
  IF ts = <<>> THEN Bad0
  ELSE LET p == Enclosed(ts, "(", ")") IN IF p = "bad" THEN Bad0 ELSE IF p = "yes" THEN PE(SubSeq(ts, 2, Len(ts) - 1), n)
  ELSE LET b == Enclosed(ts, "{", "}") IN IF b = "bad" THEN Bad0 ELSE IF b = "yes" THEN PAlts(NoSemis(Front(ts, Len(ts))), n, [n |-> "nil"])
  ELSE LET a == Enclosed(ts, "[", "]") IN IF a = "bad" THEN Bad0
    ELSE IF a = "yes" THEN IfOk(PList(SubSeq(ts, 2, Len(ts) - 1), n, <<>>), LAMBDA l : Good([n |-> "array", of |-> l]))
  ELSE \* an assignment takes everything to its right, commas and all
    LET i == First(ts, {"=", ".=", ":="}) IN
    IF i = 0 THEN PLevel(ts, n, 1)
    ELSE IF i # 2 \/ ts[1].t # "name" THEN Bad0
    ELSE IF Len(ts) = 2 THEN IF ts[2].s = "=" THEN Good([n |-> "assign", op |-> "=", var |-> ts[1].s, x |-> [n |-> "nop"]]) ELSE Bad0
    ELSE IfOk(PE(Rest(ts, 2), n), LAMBDA e : Good([n |-> "assign", op |-> ts[2].s, var |-> ts[1].s, x |-> e]))
PLevel(ts, n, k) ==
  IF k > Len(Levels) THEN PUnary(ts, n)
  ELSE LET i == IF Levels[k][2] THEN Last(ts, Levels[k][1]) ELSE First(ts, Levels[k][1]) IN
       IF i = 0 THEN PLevel(ts, n, k + 1)
       ELSE IF i \in {-1, 1, Len(ts)} THEN Bad0
       ELSE IfOk(PE(Front(ts, i), n), LAMBDA x : IfOk(PE(Rest(ts, i), n), LAMBDA y : Good(Bin(ts[i].s, x, y))))
PUnary(ts, n) ==
  LET a == ts[1] m == Len(ts) IN
  IF Word(a, "defined") /\ (m = 2 \/ (m = 4 /\ Is(ts[2], "(") /\ Is(ts[4], ")"))) /\ ts[IF m = 4 THEN 3 ELSE 2].t = "name"
    THEN Good([n |-> "defined", var |-> ts[IF m = 4 THEN 3 ELSE 2].s])
  ELSE IF (a.t = "num" /\ m > 1) \/ Word(a, "repeat")
    THEN IfOk(PE(Rest(ts, 1), n), LAMBDA e : Good([n |-> "rep", k |-> IF a.t = "num" THEN IntOf(a.s) ELSE -1, x |-> e]))
  ELSE IF Is(a, "++") \/ Is(a, "--")
    THEN IF m > 1 /\ ts[2].t = "name" THEN Good([n |-> "inc", var |-> ts[2].s, by |-> IF a.s = "++" THEN 1 ELSE -1]) ELSE Bad0
  ELSE IF Word(a, "echo") THEN IF m > 1 /\ ts[2].t = "str" THEN Good([Str(ts[2].s) EXCEPT !.par = TRUE]) ELSE Bad0
  ELSE IF Word(a, "save") THEN IF m > 1 /\ ts[2].t = "name" THEN Good([n |-> "save", var |-> ts[2].s]) ELSE Bad0
  ELSE IF Is(a, "~") THEN IfOk(PE(Rest(ts, 1), n), LAMBDA e : Good([n |-> "~", x |-> e]))
  ELSE IF Is(a, "!") THEN IfOk(PE(Rest(ts, 1), n), LAMBDA e : Good([n |-> "!", x |-> e]))
  ELSE LET c == IF m >= 3 /\ a.t = "name" THEN Enclosed(Rest(ts, 1), "(", ")") ELSE "no" IN
  IF c = "bad" THEN Bad0
  ELSE IF c = "yes" THEN IfOk(PArgs(SubSeq(ts, 3, m - 1), n, <<>>), LAMBDA l : Good([n |-> "call", fn |-> a.s, of |-> l]))
  ELSE IF m # 1 THEN Bad0
  ELSE CASE a.t = "str" -> Good(Str(a.s))
         [] a.t = "pn" -> ReadPN(n, a.s)
         [] a.t = "tr" -> ReadTr(n, a.s)
         [] a.t = "re" -> ReadRe(n, a.s)
         [] a.t = "num" -> Good([n |-> "int", v |-> IntOf(a.s)])
         [] a.t = "name" -> Good(CASE a.s = "break" -> [n |-> "break"] [] a.s = "rounds" -> [n |-> "isrounds"]
                                   [] a.s = "true" -> [n |-> "bool", v |-> TRUE] [] a.s = "false" -> [n |-> "bool", v |-> FALSE]
                                   [] a.s = "bells" -> [n |-> "bells"] [] a.s = "length" -> [n |-> "length"]
                                   [] a.s = "endproof" -> [n |-> "endproof"] [] a.s = "proving" -> [n |-> "proving"]
                                   [] OTHER -> [n |-> "sym", s |-> a.s])
         [] OTHER -> Bad0
\* alternatives, from the last to the first; the opening brace is still there
PAlts(ts, n, chain) ==
  IF ts = <<>> THEN Good(chain)
  ELSE LET i == Last(Rest(ts, 1), {";"}) IN
    IF i = -1 THEN Bad0
    ELSE LET seg == Rest(ts, i + 1)  j == First(seg, {":"}) IN
      IF j = -1 THEN Bad0
      ELSE IfOk(IF j = 0 THEN Good(AnyRow) ELSE PE(Front(seg, j), n), LAMBDA t :
           IfOk(IF j = Len(seg) THEN Good([n |-> "nop"]) ELSE PE(Rest(seg, j), n), LAMBDA y :
             PAlts(NoSemis(Front(ts, i + 1)), n, [n |-> "if", test |-> t, yes |-> y, no |-> chain])))
PArgs(ts, n, acc) ==
  IF ts = <<>> THEN IF acc = <<>> THEN Good(acc) ELSE Bad0
  ELSE LET i == First(ts, {","}) IN
    IF i \in {-1, 1} THEN Bad0
    ELSE IF i = 0 THEN IfOk(PE(ts, n), LAMBDA e : Good(Append(acc, e)))
    ELSE IfOk(PE(Front(ts, i), n), LAMBDA e : PArgs(Rest(ts, i), n, Append(acc, e)))
PList(ts, n, acc) ==
  IF ts = <<>> THEN Good(acc)
  ELSE LET i == First(ts, {","}) IN
    IF i = -1 THEN Bad0
    ELSE IF i = 0 THEN IfOk(PE(ts, n), LAMBDA e : Good(Append(acc, e)))
    ELSE IfOk(PE(Front(ts, i), n), LAMBDA e : PList(Rest(ts, i), n, Append(acc, e)))

------------------------------------------------------------------------------
(* Reading statements.  A statement ends at a line break or semicolon outside
   brackets, unless it so far ends in a comma or full stop. *)
\* Tokens the language does not have, kind "bad", spoil the statement up to there
RECURSIVE SkipE(_, _), Gather(_, _, _, _), Cmd(_, _, _, _)
SkipE(ts, i) == IF i <= Len(ts) /\ (ts[i].t = "nl" \/ Is(ts[i], ";")) THEN SkipE(ts, i + 1) ELSE i
Gather(ts, i, acc, d) ==
  IF i > Len(ts) \/ (d = 0 /\ (ts[i].t = "nl" \/ Is(ts[i], ";"))) THEN [c |-> acc, i |-> i, d |-> d, bad |-> FALSE]
  ELSE IF ts[i].t = "bad" THEN [c |-> acc, i |-> i + 1, d |-> d, bad |-> TRUE]
  ELSE Gather(ts, i + 1, IF ts[i].t = "nl" THEN acc ELSE Append(acc, ts[i]), Max2(0, Deeper(ts[i], d)))
Cmd(ts, i, acc, d) ==
  Bind(Gather(ts, SkipE(ts, i), acc, d), LAMBDA x :
    LET l == x.c[Len(x.c)] IN
    IF x.bad THEN [ok |-> FALSE, c |-> x.c, next |-> x.i]
    ELSE IF x.c # <<>> /\ (Is(l, ",") \/ Is(l, ".") \/ x.d > 0) /\ x.i <= Len(ts) THEN Cmd(ts, x.i, x.c, x.d)
    ELSE [ok |-> x.c = <<>> \/ ~(Is(l, ",") \/ x.d > 0), c |-> x.c, next |-> x.i])
Command(ts, i) == Cmd(ts, i, <<>>, 0)

Fail(nx) == [ok |-> FALSE, s |-> [k |-> "null"], next |-> nx]
Stmt(s, nx) == [ok |-> TRUE, s |-> s, next |-> nx]
With(x, nx, F(_)) == Bind(x, LAMBDA z : IF z.ok THEN Stmt(F(z.e), nx) ELSE Fail(nx))
RECURSIVE PStmt(_, _, _, _), PIf(_, _, _, _, _, _, _), PFor(_, _, _, _, _, _)
Body(ts, c, nx, n) == Bind(PStmt(ts, c, nx, n), LAMBDA y : IF y.ok /\ y.s.k = "eof" THEN Fail(y.next) ELSE y)
PStmt(ts, c, nx, n) ==
  LET m == Len(c)
      w(i, s) == i <= m /\ Word(c[i], s)
      o(i, s) == i <= m /\ Is(c[i], s)
      num(i) == i <= m /\ c[i].t = "num"
      v(i) == IntOf(c[i].s)
  IN
  IF m = 0 \/ (m = 1 /\ c[1].s \in {"end", "quit", "exit"}) THEN Stmt([k |-> "eof"], nx)
  ELSE IF m = 2 /\ num(1) /\ w(2, "bells") THEN Stmt([k |-> "bells", v |-> v(1)], nx)
  ELSE IF m = 2 /\ num(1) /\ w(2, "extents") THEN Stmt([k |-> "extents", v |-> v(1)], nx)
  ELSE IF m = 2 /\ num(1) /\ w(2, "rows") THEN Stmt([k |-> "rows", lo |-> v(1), hi |-> v(1)], nx)
  ELSE IF m = 4 /\ num(1) /\ w(2, "to") /\ num(3) /\ w(4, "rows") THEN Stmt([k |-> "rows", lo |-> v(1), hi |-> v(3)], nx)
  ELSE IF m = 2 /\ w(1, "rounds") /\ c[2].t = "tr"
    THEN With(Bind(ParseRow(Chars(c[2].s)), LAMBDA p : [ok |-> p.ok, e |-> p.row]), nx, LAMBDA r : [k |-> "rounds", row |-> r])
  ELSE IF m = 2 /\ w(1, "row_mask") /\ c[2].t = "re" THEN Stmt([k |-> "mask", s |-> c[2].s], nx)
  ELSE IF m = 2 /\ w(1, "import") /\ c[2].t \in {"name", "str"} THEN Stmt([k |-> "import", s |-> c[2].s], nx)
  ELSE IF m > 1 /\ w(1, "prove") /\ ~o(2, "=") /\ ~o(2, ":=") /\ ~o(2, "?=")
    THEN With(PE(Rest(c, 1), n), nx, LAMBDA e : [k |-> "prove", e |-> e])
  ELSE IF w(1, "echo") \/ w(1, "warn") \/ w(1, "error")
    THEN With(IF m = 1 THEN Good(Plain("")) ELSE PE(Rest(c, 1), n), nx, LAMBDA e : [k |-> "echo", mode |-> c[1].s, e |-> e])
  ELSE IF w(1, "music") THEN With(PList(Rest(c, 1), n, <<>>), nx, LAMBDA l : [k |-> "music", of |-> l])
  ELSE IF m > 1 /\ w(1, "if") THEN
    Bind(PE(Rest(c, 1), n), LAMBDA e : IF e.ok THEN PIf(ts, nx, n, e.e, <<>>, <<>>, FALSE) ELSE Fail(nx))
  ELSE IF w(1, "foreach") THEN
    IF m < 3 \/ ~w(m - 1, "as") \/ c[m].t # "name" THEN Fail(nx)
    ELSE Bind(PE(SubSeq(c, 2, m - 2), n), LAMBDA e : IF e.ok THEN PFor(ts, nx, n, c[m].s, e.e, <<>>) ELSE Fail(nx))
  ELSE IF m > 1 /\ c[1].t = "name" /\ (o(2, "=") \/ o(2, ":=") \/ o(2, "?="))
    THEN With(IF m = 2 THEN Good([n |-> "nop"]) ELSE PE(Rest(c, 2), n), nx, LAMBDA e : [k |-> "def", op |-> c[2].s, var |-> c[1].s, e |-> e])
  ELSE Fail(nx)
PIf(ts, i, n, cond, alts, block, had) ==
  Bind(Command(ts, i), LAMBDA x :
    LET c == x.c m == Len(c) done == Append(alts, [cond |-> cond, body |-> block]) IN
    IF ~x.ok \/ m = 0 THEN Fail(x.next)
    ELSE IF m = 1 /\ Word(c[1], "endif") THEN Stmt([k |-> "if", alts |-> done], x.next)
    ELSE IF m > 1 /\ Word(c[1], "elseif") THEN
      IF had THEN Fail(x.next)
      ELSE Bind(PE(Rest(c, 1), n), LAMBDA e : IF e.ok THEN PIf(ts, x.next, n, e.e, done, <<>>, FALSE) ELSE Fail(x.next))
    ELSE IF m = 1 /\ Word(c[1], "else") THEN
      IF had THEN Fail(x.next) ELSE PIf(ts, x.next, n, [n |-> "bool", v |-> TRUE], done, <<>>, TRUE)
    ELSE Bind(Body(ts, c, x.next, n), LAMBDA y : IF y.ok THEN PIf(ts, y.next, n, cond, alts, Append(block, y.s), had) ELSE Fail(y.next)))
PFor(ts, i, n, var, arr, block) ==
  Bind(Command(ts, i), LAMBDA x :
    LET c == x.c m == Len(c) IN
    IF ~x.ok \/ m = 0 THEN Fail(x.next)
    ELSE IF m = 1 /\ Word(c[1], "endfor") THEN Stmt([k |-> "foreach", var |-> var, arr |-> arr, body |-> block], x.next)
    ELSE Bind(Body(ts, c, x.next, n), LAMBDA y : IF y.ok THEN PFor(ts, y.next, n, var, arr, Append(block, y.s)) ELSE Fail(y.next)))

------------------------------------------------------------------------------
(* What has been printed: the finished lines and the text after them. *)
NoOut == [l |-> <<>>, c |-> ""]
RECURSIVE AddLines(_, _, _, _)
AddLines(o, s, a, i) ==   \* text from a on, looked at up to i
  IF i > Len(s) THEN [o EXCEPT !.c = @ \o SubSeq(s, a, Len(s))]
  ELSE IF SubSeq(s, i, i) = "\n" THEN AddLines([l |-> Append(o.l, o.c \o SubSeq(s, a, i - 1)), c |-> ""], s, i + 1, i + 1)
  ELSE AddLines(o, s, a, i + 1)
AddText(o, s) == AddLines(o, s, 1, 1)
NewLine(o) == [l |-> Append(o.l, o.c), c |-> ""]

------------------------------------------------------------------------------
(* A proof in progress:
     r       the current row             cnt     how often each row was rung
     size    rows rung                   dups    rows rung that had been rung
     bad     rows rung too often         most    how often is allowed; -1 any
     proving whether rows still count    last    the last row that counted
     tab     the symbols assigned        ec      the program's state
     score   of the music so far         maxlen  0 if any length will do
     silent, hasout, par, pq, out  printing; a test is carried out on a copy
     (par) which prints nothing itself, but whose out is that of the proof it
     tests (pq: which prints nothing either) for "echo" to print to.         *)
ProofOf(ec) ==
  [ok |-> Len(ec.rounds) <= ec.bells,
   st |-> [r |-> Mul(Rounds(ec.bells), ec.rounds), cnt |-> <<>>, size |-> 0, dups |-> 0, bad |-> 0, most |-> ec.ext,
           proving |-> TRUE, last |-> <<>>, tab |-> <<>>, ec |-> ec, score |-> 0, maxlen |-> ec.hi,
           silent |-> ec.E \/ ec.filter \/ ec.quiet >= 2, hasout |-> TRUE, par |-> FALSE, pq |-> FALSE, out |-> ec.out]]
Clone(st) == [st EXCEPT !.most = -1, !.maxlen = 0, !.silent = TRUE, !.hasout = FALSE, !.par = TRUE, !.pq = st.silent \/ ~st.hasout]
Tested(st, cl) == IF st.silent \/ ~st.hasout THEN st ELSE [st EXCEPT !.out = cl.out]
Say(st, s) == IF st.silent \/ ~st.hasout THEN st ELSE [st EXCEPT !.out = AddText(@, s)]
SayTo(st, s, par) == IF par /\ st.par THEN IF st.pq THEN st ELSE [st EXCEPT !.out = AddText(@, s)] ELSE Say(st, s)

Yes(st, v) == [k |-> "ok", st |-> st, v |-> v]
Done(st) == Yes(st, 0)
Err(st) == [k |-> "err", st |-> st, v |-> 0]
Then(x, F(_)) == Bind(x, LAMBDA z : IF z.k = "ok" THEN F(z) ELSE z)
Set(tab, s, e) == (s :> e) @@ tab
Unset(tab, s) == [x \in DOMAIN tab \ {s} |-> tab[x]]
Known(st, s) == s \in DOMAIN st.tab \/ s \in DOMAIN st.ec.sym
Look(st, s) == IF s \in DOMAIN st.tab THEN st.tab[s] ELSE st.ec.sym[s]
Times(st, r) == IF r \in DOMAIN st.cnt THEN st.cnt[r] ELSE 0
AtRounds(st) == st.r = st.ec.rounds /\ Times(st, st.r) = st.ec.ext
Apply(r, c) == Mul(r, ChangeRow(c))

\* Printable characters, in order
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == IF c = "\t" THEN 9 ELSE IF c = "\n" THEN 10 ELSE 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c
RECURSIVE LessStr(_, _, _)
LessStr(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE LET x == Code(SubSeq(a, i, i)) y == Code(SubSeq(b, i, i)) IN IF x # y THEN x < y ELSE LessStr(a, b, i + 1)
HexVal(c) == LET d == DigitVal(c) IN IF d >= 0 THEN d
  ELSE LET S == {i \in 1..6 : SubSeq("abcdef", i, i) = c \/ SubSeq("ABCDEF", i, i) = c} IN IF S = {} THEN -1 ELSE 9 + CHOOSE i \in S : TRUE
RECURSIVE Hex(_, _, _, _)
Hex(s, i, k, v) == IF k = 0 THEN v ELSE IF i > Len(s) \/ HexVal(SubSeq(s, i, i)) < 0 THEN -1 ELSE Hex(s, i + 1, k - 1, v * 16 + HexVal(SubSeq(s, i, i)))
\* A string as printed: [ok, s]
RECURSIVE Esc(_, _, _)
Esc(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, s |-> acc]
  ELSE LET c == SubSeq(s, i, i) IN
  IF c # "\\" THEN Esc(s, i + 1, acc \o c)
  ELSE IF i = Len(s) THEN [ok |-> FALSE, s |-> acc]
  ELSE LET d == SubSeq(s, i + 1, i + 1) k == CASE d = "x" -> 2 [] d = "u" -> 4 [] d = "U" -> 8 [] OTHER -> 0 IN
    IF k > 0 THEN LET v == Hex(s, i + 2, k, 0) IN
      IF v = -1 \/ v > 126 THEN [ok |-> FALSE, s |-> acc]
      ELSE Esc(s, i + 2 + k, acc \o (IF v = 10 THEN "\n" ELSE IF v = 9 THEN "\t" ELSE SubSeq(Ascii, v - 31, v - 31)))
    ELSE Esc(s, i + 2, acc \o (IF d = "n" THEN "\n" ELSE IF d = "t" THEN "\t" ELSE IF d = "'" THEN "\"" ELSE d))
RECURSIVE CloseAt(_, _)
CloseAt(s, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = "}" THEN i ELSE CloseAt(s, i + 1)

\* What a row mask shows of a row
Shown(p, r) == CHOOSE w \in Wilds(p, r) : TRUE
Num(i) == [n |-> "int", v |-> i]
Overlay(mask, off, atend, m) ==   \* [ok, v]
  LET k == Len(mask) n == Len(m)
      bad == off < 0 \/ (atend /\ (off >= n \/ k > off + 1)) \/ (~atend /\ (off = 0 \/ off - 1 + k > n))
      at == IF atend THEN n - off - 1 ELSE off - 1 IN   \* changes before it
  [ok |-> ~bad, v |-> IF bad THEN m ELSE [i \in 1..n |-> IF i > at /\ i <= at + k THEN mask[i - at] ELSE m[i]]]

RECURSIVE Exec(_, _, _), Eval(_, _), BoolV(_, _), IntV(_, _), StrV(_, _), PnV(_, _), MusV(_, _), ArrV(_, _), TypeV(_, _),
          Call(_, _, _), Replace(_, _, _), NameV(_, _), SymExec(_, _, _), Ring(_, _, _), Loop(_, _, _, _, _), PnLoop(_, _, _, _, _), Subst(_, _, _, _)

\* ---- ringing a row -----------------------------------------------------------
Rung1(st, r) ==
  LET k == Times(st, r) + 1 IN
  [st EXCEPT !.cnt = Set(@, r, k), !.size = @ + 1, !.dups = IF k > 1 THEN @ + 1 ELSE @,
             !.bad = IF st.most # -1 /\ k > st.most THEN @ + 1 ELSE @,
             !.score = @ + Cardinality({i \in 1..Len(st.ec.mus) : Matches(st.ec.mus[i], r)})]
RowRung(st0, r) ==
  IF ~st0.proving THEN Done([st0 EXCEPT !.r = r])
  ELSE Bind(Rung1([st0 EXCEPT !.r = r], r), LAMBDA st :
    LET quiet == st.silent
        ev == SymExec("everyrow", IF st.ec.E /\ ~st.ec.filter THEN [st EXCEPT !.silent = FALSE] ELSE st, 1) IN
    Then(Then(Then(Bind(ev, LAMBDA x : [x EXCEPT !.st.silent = quiet]),
      LAMBDA x : IF x.st.maxlen > 0 /\ x.st.size > x.st.maxlen THEN SymExec("toolong", x.st, 1) ELSE x),
      LAMBDA x : IF AtRounds(x.st) THEN SymExec("rounds", x.st, 1) ELSE x),
      LAMBDA x : IF st.bad > 0 THEN SymExec("conflict", x.st, 1) ELSE x))
Ring(chs, i, st) == IF i > Len(chs) THEN Done(st) ELSE Then(RowRung(st, Apply(st.r, chs[i])), LAMBDA x : Ring(chs, i + 1, x.st))

SymExec(s, st, dir) ==
  LET all == st.ec.trall /\ s # "everyrow"
      tr == st.hasout /\ (all \/ \E i \in 1..Len(st.ec.tr) : st.ec.tr[i] = s)
      named == IF all THEN st.ec.trall ELSE Len(st.ec.tr) > 1
      st1 == IF tr THEN [st EXCEPT !.out = NewLine(AddText(@, RowText(st.r) \o (IF named THEN "\t" \o s ELSE "")))] ELSE st IN
  IF Known(st, s) THEN Exec(Look(st, s), st1, dir) ELSE Err(st1)

\* ---- strings -------------------------------------------------------------------
\* the text from character i on, its references replaced: v = [s, exit, nonl]
Subst(s, i, acc, st) ==
  IF i > Len(s) THEN Yes(st, acc)
  ELSE LET c == SubSeq(s, i, i) d == IF i < Len(s) THEN SubSeq(s, i + 1, i + 1) ELSE ""
           on(t, k) == Subst(s, i + k, [acc EXCEPT !.s = @ \o t], st) IN
  CASE c = "@" -> IF Matches(st.ec.mask, st.r) THEN on(RowText(Shown(st.ec.mask, st.r)), 1) ELSE Yes(st, [acc EXCEPT !.s = ""])
    [] c = "$" -> IF d = "$" THEN Subst(s, i + 2, [acc EXCEPT !.exit = TRUE], st)
                  ELSE IF d # "{" \/ st.ec.ms THEN on(ToString(st.dups), 1)
                  ELSE LET j == CloseAt(s, i + 2) nm == SubSeq(s, i + 2, j - 1) IN
                    IF j = 0 \/ ~Known(st, nm) THEN Err(st)
                    ELSE Bind(StrV(Look(st, nm), Clone(st)), LAMBDA x :
                           IF x.k # "ok" THEN [x EXCEPT !.st = Tested(st, x.st)]
                           ELSE Subst(s, j + 1, [acc EXCEPT !.s = @ \o x.v.s], Tested(st, x.st)))
    [] c = "#" -> on(ToString(st.size), 1)
    [] c = "\\" -> IF d = "" THEN Yes(st, [acc EXCEPT !.nonl = TRUE]) ELSE on(c \o d, 2)
    [] OTHER -> on(c, 1)
EvalStr(e, st) ==   \* the string node it becomes
  IF ~e.ip THEN Yes(st, e)
  ELSE Then(Subst(e.s, 1, [s |-> "", exit |-> FALSE, nonl |-> FALSE], st),
            LAMBDA x : Yes(x.st, [n |-> "str", s |-> x.v.s, ip |-> FALSE, par |-> e.par, nonl |-> x.v.nonl, ab |-> x.v.exit]))
ExecStr(e, st) ==
  Then(EvalStr(e, st), LAMBDA x :
    LET t == Esc(x.v.s, 1, "") IN
    IF ~t.ok THEN Err(x.st)
    ELSE LET st1 == SayTo(x.st, t.s, e.par) st2 == IF x.v.nonl THEN st1 ELSE SayTo(st1, "\n", e.par) IN
         [k |-> IF x.v.ab THEN "abort" ELSE "ok", st |-> st2, v |-> 0])

\* ---- executing -----------------------------------------------------------------
Test(e, st) ==   \* the test of an alternative, carried out on a copy
  Bind(BoolV(e, Clone(st)), LAMBDA x :
    IF x.k = "err" THEN Err(Tested(st, x.st)) ELSE Yes(Tested(st, x.st), IF x.k = "ok" THEN x.v ELSE FALSE))
Scoped(st, s, x) ==   \* after x, s means what it did in st
  [x EXCEPT !.st.tab = IF Known(st, s) THEN Set(@, s, Look(st, s)) ELSE Unset(@, s)]
Loop(e, i, k, st, dir) ==
  IF k # -1 /\ i > k THEN Done(st)
  ELSE Then(Exec(e, [st EXCEPT !.tab = Set(@, "loop_counter", Num(i))], dir), LAMBDA x : Loop(e, i + 1, k, x.st, dir))
Repeat(e, k, st, dir) ==
  Bind(Loop(e, 1, k, st, dir), LAMBDA x : [Scoped(st, "loop_counter", x) EXCEPT !.k = IF @ = "break" THEN "ok" ELSE @])
BoolNodes == {"pat", "pats", "isrounds", "proving", "defined", "bool", "&&", "||", "!", "==", "!=", "<", ">", "<=", ">="}
IntNodes == {"int", "+", "-", "/", "%", "inc", "bells", "length"}
Arith(x) == x.k = "ok" /\ x.v[1] = "int" /\ x.v[2] = "int"
\* the types of both operands of *, the second only if the first is an integer
Types(e, st) == Then(TypeV(e.x, st), LAMBDA a : IF a.v # "int" THEN Yes(a.st, <<a.v, "">>) ELSE Then(TypeV(e.y, a.st), LAMBDA b : Yes(b.st, <<a.v, b.v>>)))

Exec(e, st, dir) ==
  LET n == e.n IN
  CASE n = "nop" -> Done(st)
    [] n = "," -> IF dir > 0 THEN Then(Exec(e.x, st, dir), LAMBDA x : Exec(e.y, x.st, dir))
                             ELSE Then(Exec(e.y, st, dir), LAMBDA x : Exec(e.x, x.st, dir))
    [] n = "rep" -> Repeat(e.x, e.k, st, dir)
    [] n = "~" -> Exec(e.x, st, -dir)
    [] n = "str" -> ExecStr(e, st)
    [] n = "." -> Then(StrV(e, st), LAMBDA x : Done(Say(x.st, x.v.s)))
    [] n = "pn" -> Ring(IF dir > 0 THEN e.chs ELSE ReverseSeq(e.chs), 1, st)
    [] n = "&" -> Then(PnV(e, st), LAMBDA x : Ring(IF dir > 0 THEN x.v ELSE ReverseSeq(x.v), 1, x.st))
    [] n = "tr" -> RowRung(st, Mul(st.r, e.row))
    [] n = "sym" -> SymExec(e.s, st, dir)
    [] n = "assign" ->
         IF dir < 0 THEN Err(st)
         ELSE IF e.op = "=" THEN Done([st EXCEPT !.tab = Set(@, e.var, e.x)])
         ELSE IF e.op = ":=" THEN Then(Eval(e.x, st), LAMBDA x : Done([x.st EXCEPT !.tab = Set(@, e.var, x.v)]))
         ELSE IF ~Known(st, e.var) THEN Err(st)
         ELSE Then(StrV(Look(st, e.var), st), LAMBDA a : Then(StrV(e.x, a.st), LAMBDA b :
                Done([b.st EXCEPT !.tab = Set(@, e.var, Plain(a.v.s \o b.v.s))])))
    [] n = "endproof" -> Done([st EXCEPT !.proving = FALSE, !.last = IF st.proving THEN st.r ELSE @])
    [] n \in BoolNodes -> IF dir < 0 THEN Err(st) ELSE BoolV(e, st)
    [] n \in IntNodes -> IF dir < 0 THEN Err(st) ELSE IntV(e, st)
    [] n = "*" ->
         Then(Types(e, st), LAMBDA t :
           IF Arith(t) THEN IF dir < 0 THEN Err(t.st) ELSE IntV(e, t.st)
           ELSE IF t.v[1] = "int" THEN Then(IntV(e.x, t.st), LAMBDA k : Repeat(e.y, k.v, k.st, dir))
           ELSE Then(TypeV(e.y, t.st), LAMBDA u : IF u.v # "int" THEN Err(u.st)
                  ELSE Then(IntV(e.y, u.st), LAMBDA k : Repeat(e.x, k.v, k.st, dir))))
    [] n = "if" ->
         IF dir < 0 THEN Err(st)
         ELSE Then(Test(e.test, st), LAMBDA x :
           IF x.v THEN Exec(e.yes, x.st, dir) ELSE IF e.no.n = "nil" THEN Done(x.st) ELSE Exec(e.no, x.st, dir))
    [] n = "break" -> IF dir < 0 THEN Err(st) ELSE [k |-> "break", st |-> st, v |-> 0]
    [] n = "call" -> IF dir < 0 THEN Err(st) ELSE Then(Eval(e, st), LAMBDA x : Exec(x.v, x.st, dir))
    [] n = "save" ->
         IF st.par THEN Done(st) ELSE IF ~Known(st, e.var) THEN Err(st)
         ELSE Done([st EXCEPT !.ec.sym = Set(@, e.var, Look(st, e.var)),
                              !.ec.first = IF e.var \in DOMAIN st.ec.sym \/ @.n # "nil" THEN @ ELSE Look(st, e.var)])
    [] OTHER -> Err(st)   \* arrays, replacements and functions

\* ---- evaluating ----------------------------------------------------------------
Eval(e, st) ==
  LET n == e.n IN
  CASE n = "," -> Then(Exec(e.x, st, 1), LAMBDA x : Eval(e.y, x.st))
    [] n = "str" -> EvalStr(e, st)
    [] n = "." -> Then(StrV(e, st), LAMBDA x : Yes(x.st, Plain(x.v.s)))
    [] n = "&" -> Then(PnV(e, st), LAMBDA x : Yes(x.st, [n |-> "pn", chs |-> x.v, name |-> ""]))
    [] n = "sym" -> IF Known(st, e.s) THEN Eval(Look(st, e.s), st) ELSE Err(st)
    [] n \in BoolNodes -> Then(BoolV(e, st), LAMBDA x : Yes(x.st, [n |-> "bool", v |-> x.v]))
    [] n \in IntNodes -> Then(IntV(e, st), LAMBDA x : Yes(x.st, Num(x.v)))
    [] n = "*" -> Then(Types(e, st), LAMBDA t : IF Arith(t) THEN Then(IntV(e, t.st), LAMBDA x : Yes(x.st, Num(x.v))) ELSE Err(t.st))
    [] n = "if" -> Then(Test(e.test, st), LAMBDA x : IF x.v THEN Eval(e.yes, x.st) ELSE IF e.no.n = "nil" THEN Err(x.st) ELSE Eval(e.no, x.st))
    [] n = "call" -> IF Known(st, e.fn) THEN Call(Look(st, e.fn), e.of, st) ELSE Err(st)
    [] OTHER -> Err(st)

BoolV(e, st) ==
  LET n == e.n IN
  CASE n = "," -> Then(Exec(e.x, st, 1), LAMBDA x : BoolV(e.y, x.st))
    [] n = "sym" -> IF Known(st, e.s) THEN BoolV(Look(st, e.s), st) ELSE Err(st)
    [] n = "call" -> Then(Eval(e, st), LAMBDA x : BoolV(x.v, x.st))
    [] n = "bool" -> Yes(st, e.v)
    [] n = "pat" -> Yes(st, Matches(e.p, st.r))
    [] n = "pats" -> Yes(st, \E i \in 1..Len(e.ps) : Matches(e.ps[i], st.r))
    [] n = "isrounds" -> Yes(st, AtRounds(st))
    [] n = "proving" -> Yes(st, st.proving)
    [] n = "defined" -> Yes(st, Known(st, e.var))
    [] n = "&&" -> Then(BoolV(e.x, st), LAMBDA x : IF x.v THEN BoolV(e.y, x.st) ELSE x)
    [] n = "||" -> Then(BoolV(e.x, st), LAMBDA x : IF x.v THEN x ELSE BoolV(e.y, x.st))
    [] n = "!" -> Then(BoolV(e.x, st), LAMBDA x : Yes(x.st, ~x.v))
    [] n \in {"==", "!=", "<", ">", "<=", ">="} ->
         Then(TypeV(e.x, st), LAMBDA tx : Then(TypeV(e.y, tx.st), LAMBDA ty :
           LET a == tx.v b == ty.v
               eq == n \in {"==", "!="}
               ans(same, less) == CASE n = "==" -> same [] n = "!=" -> ~same [] n = "<" -> less [] n = ">=" -> ~less
                                    [] n = "<=" -> less \/ same [] n = ">" -> ~(less \/ same) IN
           IF (a = "bool") # (b = "bool") THEN Err(ty.st)
           ELSE IF a = "bool" THEN
             Then(BoolV(e.x, ty.st), LAMBDA x : Then(BoolV(e.y, x.st), LAMBDA y : IF eq THEN Yes(y.st, ans(x.v = y.v, FALSE)) ELSE Err(y.st)))
           ELSE IF a = "int" /\ b = "int" THEN
             Then(IntV(e.x, ty.st), LAMBDA x : Then(IntV(e.y, x.st), LAMBDA y : Yes(y.st, ans(x.v = y.v, x.v < y.v))))
           ELSE Then(StrV(e.x, ty.st), LAMBDA x : Then(StrV(e.y, x.st), LAMBDA y :
             IF eq THEN Yes(y.st, ans(x.v.s = y.v.s, FALSE))
             ELSE IF a = "int" \/ b = "int" THEN Err(y.st)
             ELSE Yes(y.st, ans(x.v.s = y.v.s, LessStr(x.v.s, y.v.s, 1)))))))
    [] OTHER -> Err(st)

AbsI(i) == IF i < 0 THEN -i ELSE i
\* rounded towards zero
Quo(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
IntV(e, st) ==
  LET n == e.n IN
  CASE n = "," -> Then(Exec(e.x, st, 1), LAMBDA x : IntV(e.y, x.st))
    [] n = "sym" -> IF Known(st, e.s) THEN IntV(Look(st, e.s), st) ELSE Err(st)
    [] n = "call" -> Then(Eval(e, st), LAMBDA x : IntV(x.v, x.st))
    [] n = "int" -> Yes(st, e.v)
    [] n = "bells" -> Yes(st, st.ec.bells)
    [] n = "length" -> Yes(st, st.size)
    [] n \in {"+", "-", "/", "%"} ->
         Then(IntV(e.x, st), LAMBDA x : Then(IntV(e.y, x.st), LAMBDA y :
           IF n = "+" THEN Yes(y.st, x.v + y.v) ELSE IF n = "-" THEN Yes(y.st, x.v - y.v)
           ELSE IF y.v = 0 THEN Err(y.st)
           ELSE LET q == Quo(x.v, y.v) IN Yes(y.st, IF n = "/" THEN q ELSE x.v - (q * y.v))))
    [] n = "*" -> Then(Types(e, st), LAMBDA t : IF ~Arith(t) THEN Err(t.st)
                  ELSE Then(IntV(e.x, t.st), LAMBDA x : Then(IntV(e.y, x.st), LAMBDA y : Yes(y.st, x.v * y.v))))
    [] n = "inc" -> IF ~Known(st, e.var) THEN Err(st)
                    ELSE Then(IntV(Look(st, e.var), st), LAMBDA x : Yes([x.st EXCEPT !.tab = Set(@, e.var, Num(x.v + e.by))], x.v + e.by))
    [] OTHER -> Err(st)

\* v = [s, nonl]
Text(st, s) == Yes(st, [s |-> s, nonl |-> FALSE])
StrV(e, st) ==
  LET n == e.n IN
  CASE n = "," -> Then(Exec(e.x, st, 1), LAMBDA x : Then(StrV(e.y, x.st), LAMBDA y : Text(y.st, y.v.s)))
    [] n = "str" -> Then(EvalStr(e, st), LAMBDA x : Yes(x.st, [s |-> x.v.s, nonl |-> x.v.nonl]))
    [] n = "." -> Then(StrV(e.x, st), LAMBDA x : Then(StrV(e.y, x.st), LAMBDA y : Text(y.st, x.v.s \o y.v.s)))
    [] n = "sym" -> IF Known(st, e.s) THEN StrV(Look(st, e.s), st) ELSE Err(st)
    [] n = "call" -> Then(Eval(e, st), LAMBDA x : Then(StrV(x.v, x.st), LAMBDA y : Text(y.st, y.v.s)))
    [] n \in IntNodes \/ n = "*" -> Then(IntV(e, st), LAMBDA x : Text(x.st, ToString(x.v)))
    [] OTHER -> Err(st)

PnLoop(e, i, k, acc, st) ==
  IF i > k THEN Yes(st, acc)
  ELSE Then(PnV(e, [st EXCEPT !.tab = Set(@, "loop_counter", Num(i))]), LAMBDA x : PnLoop(e, i + 1, k, acc \o x.v, x.st))
PnV(e, st) ==
  LET n == e.n IN
  CASE n = "," -> Then(PnV(e.x, st), LAMBDA x : Then(PnV(e.y, x.st), LAMBDA y : Yes(y.st, x.v \o y.v)))
    [] n = "pn" -> Yes(st, e.chs)
    [] n = "rep" -> IF e.k = -1 THEN Err(st) ELSE Bind(PnLoop(e.x, 1, e.k, <<>>, st), LAMBDA x : Scoped(st, "loop_counter", x))
    [] n = "~" -> Then(PnV(e.x, st), LAMBDA x : Yes(x.st, ReverseSeq(x.v)))
    [] n = "&" -> Then(PnV(e.x, st), LAMBDA x : Replace(e.y, x.v, x.st))
    [] n = "sym" -> IF Known(st, e.s) THEN PnV(Look(st, e.s), st) ELSE Err(st)
    [] n = "call" -> Then(Eval(e, st), LAMBDA x : PnV(x.v, x.st))
    [] OTHER -> Err(st)
Replace(e, m, st) ==
  LET lay(mask, off, atend, s2) == LET o == Overlay(mask, off, atend, m) IN IF o.ok THEN Yes(s2, o.v) ELSE Err(s2) IN
  CASE e.n = "pn" -> lay(e.chs, IF e.chs = <<>> THEN 0 ELSE Len(e.chs) - 1, TRUE, st)
    [] e.n \in {"<<", ">>"} -> Then(PnV(e.x, st), LAMBDA p : Then(IntV(e.y, p.st), LAMBDA o : lay(p.v, o.v, e.n = "<<", o.st)))
    [] e.n = "sym" -> IF Known(st, e.s) THEN Replace(Look(st, e.s), m, st) ELSE Err(st)
    [] OTHER -> Err(st)
MusV(e, st) ==
  CASE e.n = "pat" -> Yes(st, <<e.p>>)
    [] e.n = "pats" -> Yes(st, e.ps)
    [] e.n = "sym" -> IF Known(st, e.s) THEN MusV(Look(st, e.s), st) ELSE Err(st)
    [] e.n = "call" -> Then(Eval(e, st), LAMBDA x : MusV(x.v, x.st))
    [] OTHER -> Err(st)
ArrV(e, st) ==
  CASE e.n = "array" -> Yes(st, e.of)
    [] e.n = "." -> Then(ArrV(e.x, st), LAMBDA x : Then(ArrV(e.y, x.st), LAMBDA y : Yes(y.st, x.v \o y.v)))
    [] e.n = "sym" -> IF Known(st, e.s) THEN ArrV(Look(st, e.s), st) ELSE Err(st)
    [] e.n = "call" -> Then(Eval(e, st), LAMBDA x : ArrV(x.v, x.st))
    [] OTHER -> Err(st)
TypeV(e, st) ==
  CASE e.n = "," -> TypeV(e.y, st)
    [] e.n = "sym" -> IF Known(st, e.s) THEN TypeV(Look(st, e.s), st) ELSE Err(st)
    [] e.n = "call" -> IF Known(st, e.fn) THEN TypeV(Look(st, e.fn), st) ELSE Err(st)
    [] e.n = "*" -> Then(Types(e, st), LAMBDA t : Yes(t.st, IF Arith(t) THEN "int" ELSE "none"))
    [] e.n = "fn" -> Yes(st, IF e.f \in {"at", "pos", "rowno", "music"} THEN "int" ELSE "none")
    [] OTHER -> Yes(st, IF e.n \in BoolNodes THEN "bool" ELSE IF e.n \in IntNodes THEN "int" ELSE "none")
NameV(e, st) ==
  CASE e.n = "pn" -> Yes(st, e.name)
    [] e.n \in {"<<", ">>"} -> NameV(e.x, st)
    [] e.n = "sym" -> IF Known(st, e.s) THEN NameV(Look(st, e.s), st) ELSE Err(st)
    [] OTHER -> Err(st)

\* ---- functions -----------------------------------------------------------------
Functions == {"at", "pos", "rowno", "swap", "load", "loadm", "loadlh", "stagename", "music", "runs", "frontruns", "backruns",
              "crus", "methname", "pnstr"}
\* a library's methods [name, chs] are found by title, each of the suffixes being tried in turn;
\* of methods with the same changes there is only the first
RECURSIVE SplitPath(_, _, _), LookUp(_, _, _, _)
SplitPath(s, a, i) == IF i > Len(s) THEN IF a > Len(s) THEN <<>> ELSE <<SubSeq(s, a, Len(s))>>
                      ELSE IF SubSeq(s, i, i) = ":" THEN <<SubSeq(s, a, i - 1)>> \o SplitPath(s, i + 1, i + 1) ELSE SplitPath(s, a, i + 1)
LookUp(lib, name, sfx, j) ==
  IF j > Len(sfx) THEN 0
  ELSE LET t == IF sfx[j] = "" THEN name ELSE name \o " " \o sfx[j]
           S == {i \in 1..Len(lib) : (\A k \in 1..(i - 1) : lib[k].chs # lib[i].chs) /\ FullName(lib[i].chs, lib[i].name, 9999, MethClass(lib[i].chs, 9999)) = t} IN
       IF S = {} THEN LookUp(lib, name, sfx, j + 1) ELSE CHOOSE i \in S : TRUE
Pats(ts) == [n |-> "pats", ps |-> [i \in 1..Len(ts) |-> ReadPat(ts[i]).toks]]
Swapped(n, i, j) == [k \in 1..n |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k]
RECURSIVE PnAll(_, _, _, _)
PnAll(args, i, acc, st) == IF i > Len(args) THEN Yes(st, acc) ELSE Then(PnV(args[i], st), LAMBDA x : PnAll(args, i + 1, acc \o x.v, x.st))
Call(fn, args, st) ==
  IF fn.n # "fn" THEN Err(st)
  ELSE LET f == fn.f m == Len(args) IN
  CASE f \in {"at", "pos", "stagename"} ->
         IF m # 1 THEN Err(st)
         ELSE Then(IntV(args[1], st), LAMBDA x :
           IF f = "stagename" THEN Yes(x.st, Plain(StageName(x.v)))
           ELSE IF x.v < 1 THEN Err(x.st)
           ELSE IF f = "at" THEN IF x.v > st.ec.bells THEN Err(x.st) ELSE Yes(x.st, Num(At(x.st.r, x.v)))
           ELSE IF x.v > MaxBells THEN Err(x.st)
           ELSE Yes(x.st, Num(IF x.v > Len(x.st.r) THEN x.v ELSE CHOOSE p \in 1..Len(x.st.r) : x.st.r[p] = x.v)))
    [] f = "rowno" -> IF m # 0 THEN Err(st) ELSE Yes(st, Num(st.size))
    [] f = "music" -> IF m # 0 THEN Err(st) ELSE Yes(st, Num(st.score))
    [] f = "swap" ->
         IF m \notin {1, 2} THEN Err(st)
         ELSE Then(IntV(args[1], st), LAMBDA x : Then(IF m = 1 THEN Yes(x.st, x.v + 1) ELSE IntV(args[2], x.st), LAMBDA y :
           IF {x.v, y.v} \subseteq 1..st.ec.bells /\ x.v # y.v THEN Yes(y.st, [n |-> "tr", row |-> Swapped(st.ec.bells, x.v, y.v)]) ELSE Err(y.st)))
    [] f \in {"runs", "frontruns", "backruns"} ->
         IF m > 2 THEN Err(st)
         ELSE Then(IF m > 0 THEN IntV(args[1], st) ELSE Yes(st, 4), LAMBDA x : Then(IF m > 1 THEN IntV(args[2], x.st) ELSE Yes(x.st, 0), LAMBDA y :
           Yes(y.st, Pats(Runs(st.ec.bells, x.v, f = "frontruns", f = "backruns", y.v)))))
    [] f = "crus" -> IF m # 0 THEN Err(st) ELSE Yes(st, Pats(CRUs(st.ec.bells)))
    [] f = "methname" -> IF m # 1 THEN Err(st) ELSE Then(NameV(args[1], st), LAMBDA x : Yes(x.st, Plain(x.v)))
    [] f = "pnstr" ->
         IF m = 0 THEN Err(st)
         ELSE Bind(PnAll(args, 1, <<>>, Clone(st)), LAMBDA x :
                IF x.k # "ok" THEN [x EXCEPT !.st = Tested(st, x.st)] ELSE Yes(Tested(st, x.st), Plain(Format(x.v, EXTERNAL))))
    [] f \in {"load", "loadm", "loadlh"} ->
         IF m # 1 THEN Err(st)
         ELSE Then(StrV(args[1], st), LAMBDA x :
           Then(IF "method_suffixes" \in DOMAIN x.st.ec.sym THEN Then(StrV(Look(x.st, "method_suffixes"), x.st), LAMBDA y : Yes(y.st, SplitPath(y.v.s, 1, 1)))
                ELSE Yes(x.st, <<"">>), LAMBDA y :
             LET i == LookUp(y.st.ec.lib, x.v.s, y.v, 1) q == y.st.ec.lib[i].chs k == Len(q) IN
             IF y.st.ec.lib = <<>> \/ i = 0 THEN Err(y.st)
             ELSE Yes(y.st, IF f = "loadlh" THEN [n |-> "pn", chs |-> <<q[k]>>, name |-> ""]
                            ELSE [n |-> "pn", chs |-> IF f = "load" THEN q ELSE SubSeq(q, 1, k - 1), name |-> y.st.ec.lib[i].name])))

------------------------------------------------------------------------------
(* Running a program.  The state of a program is
     sym  the symbols        bells, rounds, ext   what is being proved
     lo, hi  required length; 0 for none, hi = -1 for no limit          mask, mus  row mask and music
     first   the first symbol defined             failed, proved
     out, files, lib   what was printed; what can be imported and loaded
   and the options E, quiet, filter, inter, trall, tr.                       *)
Line(k) == Plain(ConcatAll([i \in 1..k |-> "-"]))
DefLine(ec) == LET r == Rounds(ec.bells) IN
  [ec EXCEPT !.sym = Set(@, "__line__", Line(IF Matches(ec.mask, r) THEN Len(Shown(ec.mask, r)) ELSE ec.bells))]
Define(ec, s, e) ==
  [ec EXCEPT !.sym = Set(@, s, e), !.first = IF s \in DOMAIN ec.sym \/ @.n # "nil" THEN @ ELSE e]
SetBells(ec, b) ==
  DefLine([ec EXCEPT !.rounds = IF b >= Len(@) THEN Mul(@, Rounds(b)) ELSE Rounds(b), !.bells = b,
                     !.out = IF b < Len(ec.rounds) /\ ec.rounds # Rounds(Len(ec.rounds)) THEN AddText(@, "Warning: Rounds reset") ELSE @])
SetLength(ec, lo, hi) ==
  LET put(t, s, v) == IF v # 0 THEN Set(t, s, Num(v)) ELSE Unset(t, s) IN
  [ec EXCEPT !.lo = lo, !.hi = hi, !.sym = put(put(@, "min_length", lo), "max_length", hi)]

\* Statements end in "ok", "err" (an error that may be survived) or "stop", with an exit status
ROk(ec) == [k |-> "ok", ec |-> ec, rc |-> 0, err |-> FALSE, done |-> 0]
RErr(ec) == [k |-> "err", ec |-> ec, rc |-> 2, err |-> TRUE, done |-> 0]
RStop(ec, rc) == [k |-> "stop", ec |-> ec, rc |-> rc, err |-> FALSE, done |-> 0]
\* the program's state after something was done in a proof
Back(st) == [st.ec EXCEPT !.out = st.out]
\* F of something evaluated in a proof of its own
Aside(ec, x, F(_, _)) == Bind(x, LAMBDA z : CASE z.k = "ok" -> F(Back(z.st), z.v) [] z.k = "err" -> RErr(Back(z.st)) [] OTHER -> RStop(Back(z.st), 2))
InProof(ec, F(_)) == LET p == ProofOf(ec) IN IF p.ok THEN F(p.st) ELSE [k |-> "err", st |-> p.st, v |-> 0]

ProveE(ec0, e) ==
  LET ec == [ec0 EXCEPT !.proved = TRUE, !.out = IF ec0.detb THEN AddText(@, ToString(ec0.bells) \o " bells\n") ELSE @]
      bad(c) == [c EXCEPT !.failed = TRUE]
      final(st, s, ok) == Bind(SymExec(s, st, 1), LAMBDA x :
                            IF x.k = "err" THEN RErr(Back(x.st)) ELSE ROk(IF ok THEN Back(x.st) ELSE bad(Back(x.st)))) IN
  IF ec0.one /\ ec0.proved THEN RErr(ec0)
  ELSE LET p == ProofOf(ec) IN
  IF ~p.ok THEN RErr(ec)
  ELSE Bind(Then(Then(SymExec("start", p.st, 1), LAMBDA x : Exec(e, x.st, 1)), LAMBDA x : SymExec("finish", x.st, 1)), LAMBDA x :
    CASE x.k = "err" -> RErr(Back(x.st))
      [] x.k = "abort" -> final(x.st, "abort", FALSE)
      [] x.k = "break" -> ROk(Back(x.st))
      [] OTHER ->
        IF x.st.bad > 0 THEN final(x.st, "false", FALSE)
        ELSE IF (IF x.st.proving THEN x.st.r ELSE x.st.last) # ec.rounds THEN final(x.st, "notround", FALSE)
        ELSE IF ec.lo > 0 /\ x.st.size < ec.lo THEN final(x.st, "tooshort", FALSE)
        ELSE final(IF ec.quiet > 0 THEN [x.st EXCEPT !.silent = TRUE] ELSE x.st, "true", TRUE))

RECURSIVE RunS(_, _), RunBlock(_, _, _), RunAlts(_, _, _), RunEach(_, _, _, _), RunMus(_, _, _), RunToks(_, _, _, _)
RunBlock(b, i, ec) == IF i > Len(b) THEN ROk(ec) ELSE Bind(RunS(b[i], ec), LAMBDA x : IF x.k = "ok" THEN RunBlock(b, i + 1, x.ec) ELSE x)
RunAlts(alts, i, ec) ==
  IF i > Len(alts) THEN ROk(ec)
  ELSE Aside(ec, InProof(ec, LAMBDA st : BoolV(alts[i].cond, [st EXCEPT !.silent = TRUE])), LAMBDA c, v :
         IF v THEN RunBlock(alts[i].body, 1, c) ELSE RunAlts(alts, i + 1, c))
RunEach(vals, i, s, ec) ==
  IF i > Len(vals) THEN ROk(ec)
  ELSE Bind(RunBlock(s.body, 1, Define(ec, s.var, vals[i])), LAMBDA x : IF x.k = "ok" THEN RunEach(vals, i + 1, s, x.ec) ELSE x)
RunMus(of, i, ec) ==
  IF i > Len(of) THEN ROk(ec)
  ELSE Aside(ec, InProof(ec, LAMBDA st : MusV(of[i], st)), LAMBDA c, v : RunMus(of, i + 1, [c EXCEPT !.mus = @ \o v]))
RunS(s, ec) ==
  CASE s.k = "null" -> ROk(ec)
    [] s.k = "bells" -> IF s.v > MaxBells \/ s.v <= 1 THEN RErr(ec) ELSE ROk(SetBells(ec, s.v))
    [] s.k = "extents" -> ROk([ec EXCEPT !.ext = s.v])
    [] s.k = "rows" -> ROk(SetLength(ec, s.lo, s.hi))
    [] s.k = "rounds" -> ROk([ec EXCEPT !.rounds = IF Len(s.row) < ec.bells THEN Mul(s.row, Rounds(ec.bells)) ELSE s.row])
    [] s.k = "mask" ->
         IF ec.bells = 0 THEN RErr(ec) ELSE IF ec.E THEN ROk(ec)
         ELSE Bind(ReadRe(ec.bells, s.s), LAMBDA p : IF p.ok THEN ROk(DefLine([ec EXCEPT !.mask = p.e.p])) ELSE RErr(ec))
    [] s.k = "import" ->
         LET S == {i \in 1..Len(ec.files) : ec.files[i].name = s.s}
             back(x) == LET c == IF ec.bells > 0 THEN SetBells(x.ec, ec.bells) ELSE x.ec IN [x EXCEPT !.ec = [c EXCEPT !.first = ec.first, !.inter = ec.inter]] IN
         IF S = {} THEN RErr(ec)
         ELSE Bind(RunToks(ec.files[CHOOSE i \in S : TRUE].toks, 1, 0, [ec EXCEPT !.inter = FALSE]), LAMBDA x :
                IF x.k = "stop" /\ x.rc = 2 /\ x.err THEN back([x EXCEPT !.k = "err"]) ELSE back(x))
    [] s.k = "prove" -> ProveE(ec, s.e)
    [] s.k = "echo" ->
         LET quiet(st) == [st EXCEPT !.silent = IF ec.quiet < 2 \/ s.mode # "echo" THEN FALSE ELSE @] IN
         Aside(ec, InProof(ec, LAMBDA st : StrV(s.e, quiet(st))), LAMBDA c, v :
           LET t == IF s.mode = "echo" /\ ec.quiet < 2 THEN [c EXCEPT !.out = AddText(@, v.s \o (IF v.nonl THEN "" ELSE "\n"))] ELSE c IN
           IF s.mode # "error" THEN ROk(t) ELSE IF ec.inter THEN ROk([t EXCEPT !.failed = TRUE]) ELSE RStop(t, 1))
    [] s.k = "music" -> RunMus(s.of, 1, [ec EXCEPT !.mus = <<>>])
    [] s.k = "if" -> RunAlts(s.alts, 1, ec)
    [] s.k = "foreach" -> Aside(ec, InProof(ec, LAMBDA st : ArrV(s.arr, st)), LAMBDA c, v : RunEach(v, 1, s, c))
    [] s.k = "def" ->
         IF s.op = "=" THEN ROk(Define(ec, s.var, s.e))
         ELSE IF s.op = "?=" THEN
           IF s.var \in DOMAIN ec.sym /\ ec.sym[s.var].n # "nop" THEN ROk(ec)
           ELSE ROk([ec EXCEPT !.sym = Set(@, s.var, s.e), !.first = IF @.n # "nil" THEN @ ELSE s.e])
         ELSE Aside(ec, InProof(ec, LAMBDA st : Eval(s.e, st)), LAMBDA c, v : ROk(Define(c, s.var, v)))
\* The statements from token i on; k of them were carried out so far.  In an
\* interactive run an error is survived, otherwise it is the end.
RunToks(ts, i, k, ec) ==
  LET failed(c, nx) == IF ec.inter THEN RunToks(ts, nx, k, c) ELSE [RStop(c, 2) EXCEPT !.err = TRUE, !.done = k] IN
  Bind(Command(ts, i), LAMBDA x :
    IF ~x.ok THEN failed(ec, x.next)
    ELSE Bind(PStmt(ts, x.c, x.next, ec.bells), LAMBDA y :
      IF ~y.ok THEN failed(ec, y.next)
      ELSE IF y.s.k = "eof" THEN [ROk(ec) EXCEPT !.done = k]
      ELSE Bind(RunS(y.s, ec), LAMBDA z :
        CASE z.k = "ok" -> RunToks(ts, y.next, k + 1, z.ec)
          [] z.k = "err" -> failed(z.ec, y.next)
          [] OTHER -> [z EXCEPT !.done = k])))

------------------------------------------------------------------------------
(* Running gsiril.  The options o:
     bells, ext, rounds (<<>> if not given), lo, hi, mask ("" if not given)
     strs    name and text of each -S        defs   the tokens of each -D
     mods    the modules of each -m          prove  the tokens of -P, or <<>>
     src     the tokens of the program       noread -N
     E, quiet, inter, one, detb, filter, trall, tr, files, lib
     ms, ci  whether it is MicroSIRIL, and whether case matters not
     lead, lh, pay, whole  the symbols of a filter, and --lead-includes-lh    *)
SymE(s) == [n |-> "sym", s |-> s]
Initial(ms) ==
  LET sum == SymE("__summary__")
      say(t) == Bin(",", sum, Str(t))
      nop == [n |-> "nop"] IN
  [x \in Functions |-> [n |-> "fn", f |-> x]] @@
  [x \in {"rounds", "start", "finish", "abort", "everyrow"} |-> nop] @@
  ("__msiril__" :> [n |-> "bool", v |-> ms]) @@
  ("__summary__" :> Str("# rows ending in @")) @@
  ("__music__" :> Bin(",", [n |-> "assign", op |-> "=", var |-> "__score__", x |-> [n |-> "call", fn |-> "music", of |-> <<>>]],
                      [n |-> "if", test |-> Bin(">", SymE("__score__"), Num(0)), yes |-> Str("Music score: ${__score__}"), no |-> [n |-> "nil"]])) @@
  ("true" :> Bin(",", sum, Bin(",", Str("Touch is true"), SymE("__music__")))) @@
  ("notround" :> say("Is this OK?")) @@
  ("false" :> say("Touch is false in $ rows")) @@
  ("tooshort" :> Bin(",", sum, Bin(",", Str("Touch is too short: \\"), Str("at least ${min_length} rows expected")))) @@
  ("toolong" :> Str("Touch exceeds maximum length of ${max_length} rows$$")) @@
  ("conflict" :> say("Touch not completed due to false row$$"))
\* MicroSIRIL has fewer operators, and none of the patterns
Lowered(s) == ConcatAll([i \in 1..Len(s) |-> LET c == SubSeq(s, i, i)
                                                 S == {k \in 1..26 : SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", k, k) = c} IN
                                             IF S = {} THEN c ELSE LET k == CHOOSE k \in S : TRUE IN SubSeq("abcdefghijklmnopqrstuvwxyz", k, k)])
NotMs == {"+", "-", "%", ".", "/", "&", "<<", ">>", "&&", "||", "==", "!=", "++", "--", "[", "]"}
Prep(o, ts) == [i \in 1..Len(ts) |->
  LET k == ts[i] IN
  IF o.ms /\ ((k.t = "op" /\ k.s \in NotMs) \/ k.t = "re") THEN [k EXCEPT !.t = "bad"]
  ELSE IF o.ci /\ k.t = "name" THEN [k EXCEPT !.s = Lowered(@)] ELSE k]
NoneYet == [n |-> "nil"]
Empty(o) ==
  LET mask == IF o.mask = "" THEN AnyRow.p ELSE ReadPat(o.mask).toks
      ec == [sym |-> Initial(o.ms), ms |-> o.ms, bells |-> o.bells, rounds |-> IF o.bells > 0 /\ o.rounds = <<>> THEN Rounds(o.bells) ELSE o.rounds,
             ext |-> o.ext, lo |-> 0, hi |-> 0, mask |-> mask, mus |-> <<>>, first |-> NoneYet, failed |-> FALSE, proved |-> FALSE,
             out |-> NoOut, files |-> o.files, lib |-> o.lib, E |-> o.E, quiet |-> IF o.detb THEN 2 ELSE o.quiet, filter |-> o.filter,
             inter |-> FALSE, trall |-> o.trall, tr |-> o.tr, detb |-> o.detb, one |-> o.one]
      sized == SetLength(ec, o.lo, o.hi) IN
  IF o.bells > 0 THEN DefLine(sized) ELSE sized
RECURSIVE Strings(_, _, _), Defs(_, _, _), Mods(_, _, _)
Strings(l, i, ec) == IF i > Len(l) THEN ec ELSE Strings(l, i + 1, Define(ec, l[i].name, Plain(l[i].val)))
Defs(l, i, ec) ==
  IF i > Len(l) THEN ROk(ec)
  ELSE Bind(Command(l[i], 1), LAMBDA x :
    IF ~x.ok THEN RStop(ec, 2)
    ELSE Bind(PStmt(l[i], x.c, x.next, ec.bells), LAMBDA y :
      IF ~y.ok THEN RStop(ec, 2)
      ELSE IF y.s.k # "def" THEN RStop(ec, 3)
      ELSE Bind(RunS(y.s, ec), LAMBDA z :
        IF z.k # "ok" THEN RStop(z.ec, 2)
        ELSE Bind(Command(l[i], y.next), LAMBDA w :
          IF ~w.ok THEN RStop(z.ec, 2)
          ELSE Bind(PStmt(l[i], w.c, w.next, z.ec.bells), LAMBDA q :
            IF ~q.ok THEN RStop(z.ec, 2) ELSE IF q.s.k # "eof" THEN RStop(z.ec, 3) ELSE Defs(l, i + 1, z.ec))))))
Mods(l, i, ec) ==
  IF i > Len(l) THEN ROk(ec)
  ELSE LET S == {k \in 1..Len(ec.files) : ec.files[k].name = l[i]} IN
    IF S = {} THEN RStop(ec, 2)
    ELSE Bind(RunToks(ec.files[CHOOSE k \in S : TRUE].toks, 1, 0, ec), LAMBDA x : IF x.k = "ok" THEN Mods(l, i + 1, x.ec) ELSE x)
Start(o) ==
  Bind(Defs(o.defs, 1, Strings(o.strs, 1, Empty(o))), LAMBDA x :
    IF x.k # "ok" THEN x
    ELSE Bind(Mods(o.mods, 1, x.ec), LAMBDA y :
      IF y.k # "ok" THEN y
      ELSE ROk([IF o.E THEN Define(y.ec, "everyrow", Str("@")) ELSE y.ec EXCEPT !.first = NoneYet, !.inter = o.inter])))
ProveNamed(o, ec) ==
  IF o.prove = << [t |-> "name", s |-> "__first__"] >>
  THEN IF ec.proved \/ ec.first.n = "nil" THEN ROk(ec) ELSE ProveE([ec EXCEPT !.sym = Set(@, "__first__", ec.first)], SymE("__first__"))
  ELSE LET ts == << [t |-> "name", s |-> "prove"] >> \o o.prove IN
    Bind(Command(ts, 1), LAMBDA x :
      IF ~x.ok THEN RStop(ec, 2)
      ELSE Bind(PStmt(ts, x.c, x.next, ec.bells), LAMBDA y :
        IF ~y.ok THEN RStop(ec, 2)
        ELSE Bind(Command(ts, y.next), LAMBDA w :
          IF ~w.ok THEN RStop(ec, 2)
          ELSE Bind(PStmt(ts, w.c, w.next, ec.bells), LAMBDA q :
            IF ~q.ok THEN RStop(ec, 2) ELSE IF q.s.k # "eof" THEN RStop(ec, 3) ELSE RunS(y.s, ec)))))
\* one program, from where ec leaves things: its result, of kind "ok" or "stop"
RunOne(o, ec0) ==
  LET ec == [ec0 EXCEPT !.failed = FALSE] IN
  Bind(IF o.noread THEN [ROk(ec) EXCEPT !.done = 1] ELSE RunToks(o.src, 1, 0, ec), LAMBDA x :
    IF x.k # "ok" THEN x
    ELSE Bind(IF x.done > 0 /\ o.prove # <<>> THEN ProveNamed(o, x.ec) ELSE x, LAMBDA y :
      IF y.k # "ok" THEN [y EXCEPT !.k = "stop"]
      ELSE IF o.one /\ ~y.ec.proved THEN RStop(y.ec, 2)
      ELSE ROk(y.ec)))
Prepared(o) ==
  [o EXCEPT !.src = Prep(o, @), !.prove = Prep(o, @), !.defs = [i \in 1..Len(@) |-> Prep(o, @[i])],
            !.files = [i \in 1..Len(@) |-> [@[i] EXCEPT !.toks = Prep(o, @)]]]
\* What is printed and the exit status: [rc, out].  What an
\* interactive run says of itself (a greeting and what was typed) is not included
Gsiril(o0) ==
  Bind(Prepared(o0), LAMBDA o : Bind(Start(o), LAMBDA x :
    IF x.k # "ok" THEN [rc |-> x.rc, out |-> x.ec.out]
    ELSE Bind(RunOne(o, x.ec), LAMBDA y : [rc |-> IF y.k # "ok" THEN y.rc ELSE IF y.ec.failed /\ ~o.detb THEN 1 ELSE 0, out |-> y.ec.out])))
\* As a filter: each method m, [chs, pay, haspay], is defined, the program run,
\* and the method printed if nothing went wrong
NamedPN(q) == [n |-> "pn", chs |-> q, name |-> ""]
RECURSIVE FilterFrom(_, _, _, _)
FilterFrom(o, ms, i, ec) ==
  IF i > Len(ms) THEN ROk(ec)
  ELSE LET m == ms[i] k == Len(m.chs)
           put(e, s, x) == IF s = "" THEN e ELSE Define(e, s, x)
           e1 == put(ec, o.lh, NamedPN(<<m.chs[k]>>))
           e2 == put(e1, o.lead, NamedPN(IF o.whole THEN m.chs ELSE SubSeq(m.chs, 1, k - 1)))
           e3 == IF m.haspay THEN put(e2, o.pay, Str(m.pay)) ELSE e2
           line(c) == LET q == ProofOf(c) IN
             IF o.pay = "" THEN [k |-> "ok", s |-> m.pay]
             ELSE IF o.pay \in DOMAIN c.sym THEN Bind(StrV(c.sym[o.pay], [q.st EXCEPT !.silent = TRUE]), LAMBDA x : [k |-> x.k, s |-> IF x.k = "ok" THEN x.v.s ELSE ""])
             ELSE [k |-> "err", s |-> ""] IN
    Bind(RunOne(o, e3), LAMBDA x :
      IF x.k # "ok" THEN x
      ELSE IF x.ec.failed THEN FilterFrom(o, ms, i + 1, x.ec)
      ELSE Bind(line(x.ec), LAMBDA t :
        IF t.k # "ok" THEN RStop(x.ec, 2)
        ELSE FilterFrom(o, ms, i + 1, [x.ec EXCEPT !.out = AddText(@, Format(m.chs, DASH + SYMMETRY + PLUS) \o "\t" \o t.s \o "\n")])))
GsirilFilter(o0, ms) ==
  Bind(Prepared(o0), LAMBDA o : Bind(Start(o), LAMBDA x : IF x.k # "ok" THEN [rc |-> x.rc, out |-> x.ec.out] ELSE
    Bind(FilterFrom(o, ms, 1, x.ec), LAMBDA y : [rc |-> IF y.k = "ok" THEN 0 ELSE y.rc, out |-> y.ec.out])))
=============================================================================
