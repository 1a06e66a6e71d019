------------------------------ MODULE SavingGen ------------------------------
EXTENDS GenBase, Saving
CONSTANTS MaxNotes, MaxSeqs, Ends, Starts, PitchSet, MaxCtl
Count(s) == FoldLeft(LAMBDA a, q : a + Len(q.notes), 0, s.seqs)
Ctl(s) == FoldLeft(LAMBDA a, q : a + Len(q.cc) + Len(q.pb), 0, s.seqs)
Last0(s) == Len(s.seqs)
WCmds(s) ==
    (IF s.seqs = <<>> /\ s.te = <<>>
     THEN {[op |-> "new", res |-> 220, te |-> te, ts |-> <<[t |-> 0, a |-> 3, b |-> 4]>>, ks |-> <<[t |-> 0, a |-> 1, b |-> 2]>>] :
           te \in {<<[t |-> 0, q |-> 500]>>, <<[t |-> 0, q |-> 400], [t |-> 2, q |-> 600]>>}}
     ELSE {})
    \cup (IF s.te = <<>> THEN {} ELSE
       (IF Len(s.seqs) < MaxSeqs THEN {[op |-> "seq", pr |-> 5 + Len(s.seqs), name |-> IF d = 1 THEN "Kit" ELSE "Lead", dr |-> d] : d \in {0, 1}} ELSE {})
       \cup (IF s.seqs # <<>> /\ Count(s) < MaxNotes
             THEN {[op |-> "note", k |-> Last0(s), n |-> [p |-> p, v |-> 40 + Count(s), s |-> a, e |-> b]] :
                   p \in PitchSet, a \in Starts, b \in {x \in Ends : x > 0}} ELSE {})
       \cup (IF s.seqs # <<>> /\ Ctl(s) < MaxCtl
             THEN {[op |-> "cc", k |-> Last0(s), n |-> [n |-> 7, v |-> 9, t |-> t]] : t \in Starts}
                  \cup {[op |-> "pb", k |-> Last0(s), n |-> [a |-> -300, t |-> t]] : t \in Starts} ELSE {})
       \cup (IF Count(s) > 0 THEN {[op |-> "write", via |-> "file"]} ELSE {})
       \cup (IF s.seqs # <<>> /\ Plain(s) THEN {[op |-> "save", k |-> Last0(s)], [op |-> "handed", k |-> Last0(s)]} ELSE {}))
WCmdsOk(s) == {e \in WCmds(s) : e.op # "note" \/ e.n.s < e.n.e}
Laws == NoneLost(st)
==============================================================================
