---------------------------- MODULE MC_MethFormat ----------------------------
(* Expressions: written with as few parentheses as the grammar needs, or with
   all of them, they read back as the same tree; laws of the evaluation.       *)
EXTENDS MethFormat
CONSTANT WIDE
Tok(t, s) == [t |-> t, s |-> s, n |-> 0, n2 |-> 0]
Whole(i) == [t |-> "int", s |-> "", n |-> i, n2 |-> 0]
Leaves == {Whole(0), Whole(2), Tok("str", "7"), Tok("str", "x"), Tok("kw", "suppress"), Tok("kw", "abort")}
Few == {Whole(0), Whole(2), Tok("kw", "suppress")}
Ops == {",", "||", "&&", "==", "<", "-", ".", "/"}
Ifs(C, L, R) == {[t |-> "op", s |-> "?", c |-> c, l |-> l, r |-> r] : c \in C, l \in L, r \in R}
Bins(o, L, R) == {Node(o, l, r) : l \in L, r \in R}
One == Leaves \cup UNION {Bins(o, Few, Few) : o \in Ops} \cup Ifs(Few, Few, Few)
Small == Few \cup {Node(o, Whole(2), Whole(0)) : o \in Ops} \cup {Node("&&", Whole(0), Tok("kw", "abort")), Node("||", Whole(2), Tok("kw", "abort"))}
         \cup Ifs({Whole(0)}, {Whole(2)}, {Tok("kw", "suppress")})
\* where an expression stands: 0 in a sequence, 1 as an alternative, 2.. as an operand of levels 1..
Standing(e) == IF e.t # "op" THEN 9 ELSE IF e.s = "," THEN 0 ELSE IF e.s = "?" THEN 1 ELSE 1 + OpLevel(e.s)
Mark(s) == <<Tok("op", s)>>
RECURSIVE Terse(_, _), Bracketed(_)
Terse(e, at) ==
  LET q == IF e.t # "op" THEN <<e>>
           ELSE IF e.s = "," THEN Terse(e.l, 0) \o Mark(",") \o Terse(e.r, 1)
           ELSE IF e.s = "?" THEN Terse(e.c, 2) \o Mark("?") \o Terse(e.l, 0) \o Mark(":") \o Terse(e.r, 1)
           ELSE Terse(e.l, Standing(e)) \o Mark(e.s) \o Terse(e.r, Standing(e) + 1)
  IN IF Standing(e) >= at THEN q ELSE Mark("(") \o q \o Mark(")")
Bracketed(e) == IF e.t # "op" THEN <<e>>
          ELSE Mark("(") \o (IF e.s = "?" THEN Bracketed(e.c) \o Mark("?") \o Bracketed(e.l) \o Mark(":") \o Bracketed(e.r) ELSE Bracketed(e.l) \o Mark(e.s) \o Bracketed(e.r)) \o Mark(")")
X == [b |-> 4]
V(e) == Eval(X, e)
Not(e) == Node("==", e, Whole(0))
VARIABLES op, e
Init == op \in (Ops \cup {"?"}) /\ e = Whole(0)
Next == /\ e = Whole(0) /\ op' = op
        /\ \E d \in (IF op = "?" THEN Ifs(Small, Small, Small) ELSE Bins(op, IF WIDE THEN One ELSE Small, One)) : e' = d
Spec == Init /\ [][Next]_<<op, e>>
ReadsBack == Parse(Terse(e, 0)) = e /\ Parse(Bracketed(e)) = e
\* one value or one ending
Valued == V(e).k \in {"int", "str", "error", "suppress", "abort"}
\* not(a && b) is not(a) || not(b) whenever neither ends
Dual == e.t = "op" /\ e.s = "&&" => V(Not(e)) = V(Node("||", Not(e.l), Not(e.r)))
\* && and || as alternatives
Choice == e.t = "op" /\ e.s \in {"&&", "||"} =>
  V(e) = V([t |-> "op", s |-> "?", c |-> e.l, l |-> IF e.s = "&&" THEN Not(Not(e.r)) ELSE Whole(1), r |-> IF e.s = "&&" THEN Whole(0) ELSE Not(Not(e.r))])
\* an ending on the left decides, and what is not needed is never evaluated
LeftFirst == e.t = "op" /\ e.s # "?" /\ Ended(V(e.l)) => V(e) = V(e.l)
Sequence == e.t = "op" /\ e.s = "," /\ ~Ended(V(e.l)) => V(e) = V(e.r)
\* minus and division as in C
Division == \A a \in -7..7, b \in (-3..3) \ {0} : (b * Arith("/", a, b).i) + Arith("%", a, b).i = a /\ Arith("/", -a, b).i = -Arith("/", a, b).i
OrderLaws == \A s, t \in {"", "a", "B", "ab", "10", "9"} : (TextLess(s, t) \/ TextLess(t, s)) = (s # t) /\ ~(TextLess(s, t) /\ TextLess(t, s))
Lawful == ReadsBack /\ Valued /\ Dual /\ Choice /\ LeftFirst /\ Sequence /\ (e = Whole(0) => Division /\ OrderLaws)
===============================================================================
