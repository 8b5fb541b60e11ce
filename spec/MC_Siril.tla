------------------------------ MODULE MC_Siril ------------------------------
(* The language of gsiril on small expressions: reading, the rows an
   expression denotes, and what makes a touch true.                           *)
EXTENDS Siril
F == INSTANCE Functions
CONSTANTS DEPTH, EXTENTS
VARIABLES e, st, grown

Opts == [bells |-> 3, ext |-> EXTENTS, rounds |-> <<>>, lo |-> 0, hi |-> 0, mask |-> "", strs |-> <<>>, defs |-> <<>>, mods |-> <<>>,
         prove |-> <<>>, src |-> <<>>, noread |-> FALSE, E |-> FALSE, quiet |-> 0, inter |-> FALSE, one |-> FALSE, detb |-> FALSE,
         filter |-> FALSE, trall |-> FALSE, tr |-> <<>>, files |-> <<>>, lib |-> <<>>, lead |-> "m", lh |-> "lh", pay |-> "", whole |-> FALSE,
         ms |-> FALSE, ci |-> FALSE]
Ch1(i) == [n |-> 3, s |-> <<i>>]
LeadCh(i) == NamedPN(<<Ch1(i)>>)
World == Define(Define(Start(Opts).ec, "p", Bin(",", LeadCh(1), LeadCh(2))), "i", Num(2))
Begin == ProofOf(World).st

\* expressions that only ring
Rep(k, x) == [n |-> "rep", k |-> k, x |-> x]
Rev(x) == [n |-> "~", x |-> x]
Leaf == {LeadCh(1), LeadCh(2), SymE("p")}
Grow(S) == S \cup {Bin(",", x, y) : x \in S, y \in S} \cup {Rep(k, x) : k \in 0..2, x \in S} \cup {Rev(x) : x \in S}
RECURSIVE Level(_)
Level(d) == IF d = 0 THEN Leaf ELSE Grow(Level(d - 1))
\* tests, values and what else may be among them
Tests == {[n |-> "isrounds"], [n |-> "bool", v |-> TRUE], [n |-> "bool", v |-> FALSE], [n |-> "pat", p |-> ReadPat("2*").toks],
          Bin(">", SymE("i"), Num(2)), Bin("==", [n |-> "length"], Num(2)), [n |-> "defined", var |-> "i"], [n |-> "defined", var |-> "none"],
          Bin(",", LeadCh(1), [n |-> "isrounds"]), Bin(",", [n |-> "inc", var |-> "i", by |-> 1], Bin("==", SymE("i"), Num(3)))}
If(t, x, y) == [n |-> "if", test |-> t, yes |-> x, no |-> y]
Brk == [n |-> "break"]
Others == {Brk, [n |-> "inc", var |-> "i", by |-> 1], [n |-> "assign", op |-> ":=", var |-> "i", x |-> Num(0)], [n |-> "endproof"], [n |-> "nop"],
           [n |-> "assign", op |-> "=", var |-> "p", x |-> LeadCh(2)], Str("#"), [n |-> "save", var |-> "i"]}
A == Level(1) \cup Others
Grown(x) == (IF x \in Level(DEPTH - 1) THEN {Bin(",", x, y) : y \in Level(DEPTH - 1)} \cup {Rep(k, x) : k \in 0..2} \cup {Rev(x)} ELSE {})
            \cup (IF x \in A THEN {Bin(",", x, y) : y \in A} \cup {If(t, x, y) : t \in Tests, y \in Leaf \cup Others \cup {[n |-> "nil"]}} \cup {Rep(k, x) : k \in 0..3} ELSE {})
            \cup (IF x \in Leaf THEN {Rep(3, Bin(",", x, If(t, y, z))) : t \in Tests, y \in Others \cup Leaf, z \in Leaf \cup {[n |-> "nil"]}} ELSE {})
Starts == {Begin} \cup {x.st : x \in {y \in {Exec(z, Begin, 1) : z \in {LeadCh(1), SymE("p")}} : y.k = "ok"}}

Init == e \in Level(DEPTH - 1) \cup A /\ st \in Starts /\ grown = FALSE
Next == ~grown /\ e' \in Grown(e) /\ grown' = TRUE /\ UNCHANGED st
Spec == Init /\ [][Next]_<<e, st, grown>>

------------------------------------------------------------------------------
\* Writing out an expression, in brackets throughout
T1(k, s) == <<[t |-> k, s |-> s]>>
Op(s) == T1("op", s)
RECURSIVE Show(_)
Par(x) == Op("(") \o Show(x) \o Op(")")
PatText(p) == ConcatAll([i \in 1..Len(p) |-> IF p[i].k = "star" THEN "*" ELSE IF p[i].k = "any" THEN "?" ELSE BellText(CHOOSE b \in p[i].s : TRUE)])
Show(x) ==
  CASE x.n = "," -> Par(x.x) \o Op(",") \o Par(x.y)
    [] x.n \in {">", "=="} -> Par(x.x) \o Op(x.n) \o Par(x.y)
    [] x.n = "pn" -> T1("pn", "+" \o Format(x.chs, EXTERNAL))
    [] x.n = "sym" -> T1("name", x.s)
    [] x.n = "rep" -> T1("num", ToString(x.k)) \o Par(x.x)
    [] x.n = "~" -> Op("~") \o Par(x.x)
    [] x.n = "isrounds" -> T1("name", "rounds")
    [] x.n = "bool" -> T1("name", IF x.v THEN "true" ELSE "false")
    [] x.n = "pat" -> T1("re", PatText(x.p))
    [] x.n = "int" -> T1("num", ToString(x.v))
    [] x.n = "length" -> T1("name", "length")
    [] x.n = "break" -> T1("name", "break")
    [] x.n = "endproof" -> T1("name", "endproof")
    [] x.n = "defined" -> T1("name", "defined") \o T1("name", x.var)
    [] x.n = "inc" -> Op("++") \o T1("name", x.var)
    [] x.n = "save" -> T1("name", "save") \o T1("name", x.var)
    [] x.n = "assign" -> T1("name", x.var) \o Op(x.op) \o Par(x.x)
    [] x.n = "str" -> T1("str", x.s)
    [] x.n = "if" -> Op("{") \o Show(x.test) \o Op(":") \o (IF x.yes.n = "nop" THEN <<>> ELSE Show(x.yes)) \o
                     (IF x.no.n = "nil" THEN <<>> ELSE Op(";") \o T1("name", "true") \o Op(":") \o (IF x.no.n = "nop" THEN <<>> ELSE Show(x.no))) \o Op("}")
RECURSIVE Plainly(_)   \* what reading that gives: the last alternative has a test of its own
Plainly(x) ==
  CASE x.n \in {",", ">", "=="} -> [x EXCEPT !.x = Plainly(@), !.y = Plainly(@)]
    [] x.n \in {"rep", "~", "assign"} -> [x EXCEPT !.x = Plainly(@)]
    [] x.n = "if" -> [x EXCEPT !.test = Plainly(@), !.yes = Plainly(@),
                               !.no = IF @.n = "nil" THEN @ ELSE If([n |-> "bool", v |-> TRUE], Plainly(@), [n |-> "nil"])]
    [] OTHER -> x
RECURSIVE Has1(_, _)
Has1(x, n) == x.n = n \/ (x.n \in {",", ">", "=="} /\ (Has1(x.x, n) \/ Has1(x.y, n))) \/ (x.n \in {"rep", "~", "assign"} /\ Has1(x.x, n))
              \/ (x.n = "if" /\ (Has1(x.test, n) \/ Has1(x.yes, n) \/ (x.no.n # "nil" /\ Has1(x.no, n))))
\* An empty expression can only be an alternative
Readable(x) == ~Has1(x, "nop") \/ (x.n = "if" /\ ~Has1(x.test, "nop"))
ReadsBack == Readable(e) => LET r == PE(Show(e), 3) IN r.ok /\ r.e = Plainly(e)

\* The changes an expression denotes
RECURSIVE Denotes(_, _), Times1(_, _)
Times1(k, q) == IF k = 0 THEN <<>> ELSE q \o Times1(k - 1, q)
Denotes(x, dir) ==
  CASE x.n = "pn" -> IF dir > 0 THEN x.chs ELSE ReverseSeq(x.chs)
    [] x.n = "," -> IF dir > 0 THEN Denotes(x.x, 1) \o Denotes(x.y, 1) ELSE Denotes(x.y, -1) \o Denotes(x.x, -1)
    [] x.n = "rep" -> Times1(x.k, Denotes(x.x, dir))
    [] x.n = "~" -> Denotes(x.x, -dir)
    [] x.n = "sym" -> <<Ch1(IF dir > 0 THEN 1 ELSE 2), Ch1(IF dir > 0 THEN 2 ELSE 1)>>
RowsOf(q) == [i \in 1..Len(q) |-> LET R[j \in 0..i] == IF j = 0 THEN Rounds(3) ELSE Apply(R[j - 1], q[j]) IN R[i]]
\* True touches: no row more often than allowed, and rounds at the end
Sound(rows) == (\A r \in {rows[i] : i \in 1..Len(rows)} : Cardinality({i \in 1..Len(rows) : rows[i] = r}) <= EXTENTS)
               /\ (rows = <<>> \/ rows[Len(rows)] = Rounds(3))
Rings == e \in Level(DEPTH) =>
  LET q == Denotes(e, 1) rows == RowsOf(q)
      p == ProveE([World EXCEPT !.sym = Set(Set(@, "conflict", [n |-> "nop"]), "everyrow", Str("@")), !.out = NoOut], e) IN
  /\ p.k = "ok"
  /\ p.ec.failed = ~Sound(rows)
  /\ Len(p.ec.out.l) = Len(q) + 2
  /\ \A i \in 1..Len(q) : p.ec.out.l[i] = RowText(rows[i])
  \* backwards after forwards comes back to rounds
  /\ Bind(Exec(Bin(",", e, Rev(e)), [Begin EXCEPT !.most = -1], 1), LAMBDA x : x.k = "ok" => x.st.r = Rounds(3))

\* Laws of the language, in any proof
Same(x, y) == x.k = y.k /\ (x.k # "err" => x.st = y.st)
Laws ==
  LET x == Exec(e, st, 1) IN
  /\ e.n = "," => Same(x, Then(Exec(e.x, st, 1), LAMBDA y : Exec(e.y, y.st, 1)))
  /\ e.n = "," /\ e.x.n = "," => Same(x, Exec(Bin(",", e.x.x, Bin(",", e.x.y, e.y)), st, 1))
  /\ e.n = "rep" /\ e.k = 2 /\ x.k = "ok" /\ ~Has1(e, "break") =>
       Exec(Bin(",", e.x, e.x), st, 1).st = x.st
  /\ e.n = "rep" /\ e.k = 0 => x.k = "ok" /\ x.st = st
  /\ e.n = "rep" /\ e.x = Brk => x.k = "ok" /\ x.st.r = st.r
  /\ x.k = "ok" => x.st.size >= st.size /\ (x.st.size = st.size <=> x.st.cnt = st.cnt)
  /\ ~Has1(e, "save") => x.st.ec = st.ec
  /\ ~Has1(e, "endproof") /\ x.k = "ok" => x.st.proving /\ x.st.size = st.size + F!FoldFunction(LAMBDA a, b : a + b, 0, [r \in DOMAIN x.st.cnt |-> x.st.cnt[r] - Times(st, r)])
  /\ e.n = "if" => LET t == Test(e.test, st) IN
       /\ t.k = "ok" => t.st = st      \* a test leaves the proof alone
       /\ t.k = "ok" => Same(x, IF t.v THEN Exec(e.yes, st, 1) ELSE IF e.no.n = "nil" THEN Done(st) ELSE Exec(e.no, st, 1))
\* What a proof did is forgotten, but for the symbols saved
Forgets ==
  LET p == ProveE(World, e) IN
  /\ p.ec.sym = World.sym \/ Has1(e, "save")
  /\ Has1(e, "save") => \A s \in DOMAIN World.sym \ {"i"} : p.ec.sym[s] = World.sym[s]
  /\ p.k = "ok" => LET q == ProveE([p.ec EXCEPT !.out = World.out, !.failed = FALSE, !.sym = World.sym], e) IN q.ec.out = p.ec.out /\ q.ec.failed = p.ec.failed
=============================================================================
