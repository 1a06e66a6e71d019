------------------------------ MODULE RollsGen -------------------------------
(* Every small piece (one or two instruments, few notes on a coarse grid) and *)
(* every short index list; the laws below are checked on each.                *)
EXTENDS Rolls, Json
CONSTANTS MaxNotes, Times, Pitches, Insts
VARIABLE q
Notes == {[s |-> a, e |-> b, p |-> p] : a \in Times, b \in Times, p \in Pitches}
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
NoteLists == Lists({z \in Notes : z.s < z.e}, MaxNotes)
Inst == {[notes |-> l, bends |-> b, ccs |-> c] : l \in NoteLists, b \in {<<>>, <<40>>}, c \in {<<>>}}
Pieces == {<<i>> : i \in Inst} \cup (IF Insts = 2 THEN {<<[notes |-> <<[s |-> 0, e |-> 16, p |-> 60]>>, bends |-> <<>>, ccs |-> <<33>>], i>> : i \in Inst} ELSE {})
Questions == {[op |-> "roll", piece |-> p, fs |-> f] : p \in Pieces, f \in {4, 100}}
             \cup {[op |-> "onehot", ix |-> l, depth |-> d] : l \in Lists(0..4, 3), d \in 1..5}
Init == q \in Questions /\ PrintT(ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Sound == IF q.op = "roll" THEN \A z \in Onsets(q.piece, q.fs) : z[2] \in 0..(Width(q.piece, q.fs) - 1)
         ELSE Fits(q.ix, q.depth) => Cardinality(Hot(q.ix)) = Len(q.ix)
=============================================================================
