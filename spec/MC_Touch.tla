------------------------------ MODULE MC_Touch ------------------------------
(* Every small tree: the iterating machine visits exactly the expanded tree. *)
EXTENDS Touch, FiniteSets, Json
CONSTANTS Emit
VARIABLES tree, st, seen
vars == <<tree, st, seen>>
Leaves == {[k |-> "c", c |-> v] : v \in {<<>>, <<"a">>, <<"b">>, <<"a", "b">>}}
Lists(S) == {[k |-> "l", c |-> v] : v \in {<<>>} \cup {<<[n |-> n, t |-> t]>> : n \in 0..2, t \in S}
              \cup {<<[n |-> n, t |-> t], [n |-> m, t |-> u]>> : n \in 0..2, t \in S, m \in 0..1, u \in S}}
One == Lists(Leaves)
Small == {t \in One : Len(t.c) <= 1} \cup {[k |-> "c", c |-> <<"b">>], [k |-> "l", c |-> <<[n |-> 2, t |-> [k |-> "c", c |-> <<>>]], [n |-> 2, t |-> [k |-> "c", c |-> <<"a">>]]>>]}
Trees == Leaves \cup One \cup Lists(Small)
Init == tree \in Trees /\ st = Start(tree) /\ seen = <<>>
Next == st # <<>> /\ seen' = Append(seen, Current(st)) /\ st' = Step1(st) /\ UNCHANGED tree
Spec == Init /\ [][Next]_vars
Laws == /\ seen = SubSeq(Expand(tree), 1, Len(seen))
        /\ (st = <<>>) = (seen = Expand(tree))
Emitted == (Emit /\ seen = <<>>) => PrintT("GEN " \o ToJson(tree))
=============================================================================
