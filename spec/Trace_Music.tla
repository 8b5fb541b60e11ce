----------------------------- MODULE Trace_Music -----------------------------
(* Accepts recorded sessions on a music object: its stage, its entries with the
   counts at each stroke.                                                    *)
EXTENDS Music, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, n, mus
vars == <<s, l, n, mus>>
Ok(e, v) == e.ok /\ e.v = v
Refused(e) == ~e.ok /\ e.v = "error"

Texts(m) == [i \in 1..Len(m) |-> m[i].t]
Shown(e) == Ok(e, [b |-> n', t |-> Texts(mus')])
New(e) == e.op = "w_new" /\ n' = e.a.n /\ mus' = <<>> /\ Shown(e)
Clear(e) == e.op = "w_clear" /\ n' = (IF e.a.n = 0 THEN n ELSE e.a.n) /\ mus' = <<>> /\ Shown(e)
Pat(e) == /\ e.op = "w_pat" /\ n' = n
          /\ IF GoodPat(e.a.t, n) THEN mus' = Append(mus, Entry([t |-> e.a.t, h |-> e.a.h, b |-> e.a.b])) /\ Shown(e)
             ELSE mus' = mus /\ Refused(e)
Str(e) == /\ e.op = "w_str" /\ n' = n
          /\ \E x \in {ScoredMusic(n, e.a.t)} :
               IF x.ok THEN mus' = mus \o [i \in 1..Len(x.add) |-> Entry(x.add[i])] /\ Shown(e)
               ELSE mus' = mus /\ Refused(e)
Bells(e) == /\ e.op = "w_bells" /\ mus' = mus
            /\ IF \A i \in 1..Len(mus) : InStage(mus[i].t, e.a.n) THEN n' = e.a.n /\ Shown(e) ELSE n' = n /\ Refused(e)
Counts(e, m) ==
  LET v == e.v k == Len(m) IN
  /\ v.h = [i \in 1..k |-> m[i].ch] /\ v.b = [i \in 1..k |-> m[i].cb] /\ v.a = [i \in 1..k |-> m[i].ch + m[i].cb]
  /\ v.th = [i \in 1..k |-> m[i].ch * m[i].h] /\ v.tb = [i \in 1..k |-> m[i].cb * m[i].b]
  /\ v.ta = [i \in 1..k |-> m[i].ch * m[i].h + m[i].cb * m[i].b]
  /\ v.s = <<ScoreH(m), ScoreB(m), ScoreH(m) + ScoreB(m)>>
  /\ v.c = <<CountH(m), CountB(m), CountH(m) + CountB(m)>>
Row(e) == /\ e.op = "w_row" /\ n' = n /\ e.ok
          /\ \E m \in {Rung(mus, e.a.r, e.a.back)} :
             mus' = m /\ Counts(e, m)
             /\ e.v.m = (\E i \in 1..Len(mus) : Matches(mus[i].p, e.a.r))
             /\ \A i \in 1..Len(mus) : LET W == Wilds(mus[i].p, e.a.r) IN
                  IF W = {} THEN e.v.w[i] = <<>> ELSE e.v.w[i] \in W
RowsFold(m0, rows, back) ==
  LET RECURSIVE F(_, _, _)
      F(m, i, b) == IF i > Len(rows) THEN m ELSE CHOOSE y \in {F(x, i + 1, ~b) : x \in {Rung(m, rows[i], b)}} : TRUE
  IN F(m0, 1, back)
RowsOp(e) == /\ e.op = "w_rows" /\ n' = n /\ e.ok
             /\ \E m \in {RowsFold(Cleared(mus), e.a.rows, e.a.back)} : mus' = m /\ Counts(e, m)
Reset(e) == e.op = "w_reset" /\ n' = n /\ mus' = Cleared(mus) /\ e.ok /\ Counts(e, mus')
Poss(e) == /\ e.op = "w_poss" /\ UNCHANGED <<n, mus>>
           /\ \E P \in {[i \in 1..Len(mus) |-> TLCEval(Possible(mus[i].p, n))]} :
                Ok(e, [c |-> P, s |-> [i \in 1..Len(mus) |-> P[i] * Max2(mus[i].h, mus[i].b)],
                       t |-> SumSeq([i \in 1..Len(mus) |-> P[i] * Max2(mus[i].h, mus[i].b)])])
Count(e) == /\ e.op = "w_count" /\ UNCHANGED <<n, mus>>
            /\ IF GoodPat(e.a.t, 0) /\ (e.a.n > 0) /\ InStage(e.a.t, e.a.n)
               THEN \E c \in {Possible(ReadPat(e.a.t).toks, e.a.n)} : Ok(e, <<c, c, c>>)
               ELSE Refused(e)

\* ---- musgrep: rows on the standard input, one to a line --------------------------------
Has(a, o) == \E i \in 1..Len(a) : a[i] = o
ReadRowText(t) == LET x == ReadBells(Chars(t), 1, <<>>) IN x.seq
Grep(e) ==
  LET o == e.a.opts b == e.a.n
      RECURSIVE Add(_, _, _)
      Add(m, i, ends) == IF i > Len(e.a.pats) THEN [ok |-> TRUE, m |-> m, ends |-> ends]
        ELSE LET x == ScoredMusic(b, e.a.pats[i]) IN
             IF ~x.ok THEN [ok |-> FALSE, m |-> m, ends |-> ends]
             ELSE CHOOSE y \in {Add(m2, i + 1, Append(ends, Len(m2))) : m2 \in {m \o [j \in 1..Len(x.add) |-> Entry(x.add[j])]}} : TRUE
  IN /\ e.op = "w_grep" /\ UNCHANGED <<n, mus>> /\ e.ok
     /\ \E st \in {Add(<<>>, 1, <<>>)} :
        IF ~st.ok \/ (Has(o, "-i") /\ Has(o, "-o")) THEN e.v.rc = 1 /\ e.v.out = <<>>
        ELSE LET
          \* the rows of the stage, each with its stroke (the first is at hand)
          R == SelectSeq(e.a.rows, LAMBDA r : Len(r) = b)
          K == {i \in 1..Len(R) : (Has(o, "-i") => Sign(R[i]) = 1) /\ (Has(o, "-o") => Sign(R[i]) = -1)}
          RECURSIVE F(_, _, _)
          F(m, i, acc) == IF i > Len(R) THEN [m |-> m, acc |-> acc]
             ELSE IF i \notin K THEN F(m, i + 1, acc)
             ELSE LET hit == \E j \in 1..Len(m) : Matches(m[j].p, R[i]) IN
                  CHOOSE y \in {F(m2, i + 1, Append(acc, [r |-> R[i], hit |-> hit, d |-> ScoreH(m2) + ScoreB(m2) - ScoreH(m) - ScoreB(m)])) :
                                m2 \in {Rung(m, R[i], i % 2 = 0)}} : TRUE
        IN \E f \in {F(st.m, 1, <<>>)} :
           LET hits == SelectSeq(f.acc, LAMBDA x : x.hit)
               pos == Len(SelectSeq(hits, LAMBDA x : x.d > 0))
               neg == Len(SelectSeq(hits, LAMBDA x : x.d < 0))
               quiet == \E x \in {"-c", "-s", "-S", "-p", "-n"} : Has(o, x)
               rows == IF quiet THEN <<>>
                       ELSE IF Has(o, "-H") THEN [i \in 1..Len(f.acc) |-> RowText(f.acc[i].r) \o (IF f.acc[i].hit THEN " *" ELSE "")]
                       ELSE [i \in 1..Len(hits) |-> RowText(hits[i].r)]
               nums == (IF Has(o, "-p") THEN <<pos>> ELSE <<>>) \o (IF Has(o, "-n") THEN <<neg>> ELSE <<>>)
                       \o (IF Has(o, "-c") THEN <<Len(hits)>> ELSE <<>>) \o (IF Has(o, "-s") THEN <<ScoreH(f.m) + ScoreB(f.m)>> ELSE <<>>)
               RECURSIVE Tabs(_)
               Tabs(q) == IF Len(q) = 1 THEN ToString(q[1]) ELSE ToString(q[1]) \o "\t" \o Tabs(Tail(q))
               each == [i \in 1..Len(st.ends) |-> LET lo == IF i = 1 THEN 1 ELSE st.ends[i - 1] + 1 IN
                          SumSeq([j \in 1..(st.ends[i] - lo + 1) |-> LET x == f.m[lo + j - 1] IN x.ch * x.h + x.cb * x.b])]
           IN e.v.rc = 0 /\ e.v.out = rows \o (IF nums = <<>> THEN <<>> ELSE <<Tabs(nums)>>)
                                    \o (IF Has(o, "-S") /\ each # <<>> THEN <<Tabs(each)>> ELSE <<>>)
Init == s \in 1..Len(Sessions) /\ l = 1 /\ n = 0 /\ mus = <<>>
Step(e) == New(e) \/ Clear(e) \/ Pat(e) \/ Str(e) \/ Bells(e) \/ Row(e) \/ RowsOp(e) \/ Reset(e) \/ Poss(e) \/ Count(e) \/ Grep(e)
Next == \/ l <= Len(Sessions[s]) /\ Step(Sessions[s][l]) /\ l' = l + 1 /\ s' = s
        \/ l > Len(Sessions[s]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
