-------------------------------- MODULE Touch --------------------------------
(* A touch is a tree: a leaf [k |-> "c", c |-> changes] or a list
   [k |-> "l", c |-> <<..., [n |-> times, t |-> subtree], ...>>].
   Iterating it is a machine whose state is the stack of positions on the way
   down to the current change; the changes visited are the expanded tree.     *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Repeat(_, _)
Repeat(v, n) == IF n <= 0 THEN <<>> ELSE IF n = 1 THEN v ELSE
                LET h == TLCEval(Repeat(v, n \div 2)) IN h \o h \o (IF n % 2 = 1 THEN v ELSE <<>>)
RECURSIVE Expand(_), ExpandList(_)
Expand(t) == IF t.k = "c" THEN t.c ELSE ExpandList(t.c)
ExpandList(cs) == IF cs = <<>> THEN <<>> ELSE Repeat(TLCEval(Expand(cs[1].t)), cs[1].n) \o ExpandList(Tail(cs))

\* the machine: a stack of <<node, child or change index, time round>>
RECURSIVE Down(_, _)      \* descend to the first change at or after the top of the stack
Top(st) == st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
SetTop(st, f) == [st EXCEPT ![Len(st)] = f]
Down(st, dummy) ==
  IF st = <<>> THEN <<>>
  ELSE LET f == Top(st) t == f.t IN
    IF t.k = "c" THEN IF f.i <= Len(t.c) THEN st
                      ELSE \* leaf finished: go round again or move on
                           LET p == Pop(st) IN IF p = <<>> THEN <<>>
                             ELSE Down(SetTop(p, [Top(p) EXCEPT !.m = @ + 1]), 0)
    ELSE IF f.i > Len(t.c) THEN LET p == Pop(st) IN IF p = <<>> THEN <<>>
                             ELSE Down(SetTop(p, [Top(p) EXCEPT !.m = @ + 1]), 0)
    ELSE IF f.m >= t.c[f.i].n THEN Down(SetTop(st, [f EXCEPT !.i = @ + 1, !.m = 0]), 0)
    ELSE Down(Append(st, [t |-> t.c[f.i].t, i |-> 1, m |-> 0]), 0)
Start(t) == Down(<<[t |-> t, i |-> 1, m |-> 0]>>, 0)
Current(st) == Top(st).t.c[Top(st).i]
Step1(st) == Down(SetTop(st, [Top(st) EXCEPT !.i = @ + 1]), 0)
=============================================================================
