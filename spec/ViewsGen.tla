------------------------------ MODULE ViewsGen ------------------------------
(* Small pieces: a few notes of one or two instruments, a pedal, and every   *)
(* question.  The laws are checked in every state.                           *)
EXTENDS GenBase, Views
CONSTANTS Times, Lens, Pitches, Insts, Pedals
Size(s) == Len(Notes(s)) + Total(s, LAMBDA i : Len(i.cc))
VCmds(s) ==
    (IF Len(s) < Insts THEN {[op |-> "inst", drum |-> b] : b \in BOOLEAN} ELSE {})
    \cup {[op |-> "note", i |-> k, s |-> t, e |-> t + d, p |-> p, v |-> 40 + p - 50] : k \in DOMAIN s, t \in Times, d \in Lens, p \in Pitches}
    \cup {[op |-> "cc", i |-> k, t |-> t, n |-> 64, v |-> v] : k \in DOMAIN s, t \in Times, v \in Pedals}
    \cup (IF Size(s) > 0 THEN
           {[op |-> o] : o \in {"onsets", "tempi", "clean", "tempo", "end"}}
           \cup {[op |-> o, fs |-> 4, ped |-> 64] : o \in {"roll", "chroma"}} \cup {[op |-> "rollat", fs |-> 4, ped |-> 64, cols |-> <<0, 2, 3, 9>>]}
           \cup {[op |-> "hist", dur |-> TRUE, vel |-> TRUE, norm |-> b] : b \in BOOLEAN} \cup {[op |-> "trans", th |-> 16, norm |-> b] : b \in BOOLEAN}
           \cup {[op |-> "first", n |-> 1, by |-> 0], [op |-> "first", n |-> 1, by |-> 3], [op |-> "wave", fs |-> 1000]}
          ELSE {})
VExpect(s, e, r) == <<>>
Sum(q) == Total(q, LAMBDA v : v)
Area(r) == Total(SetToSeq(DOMAIN r.rows), LAMBDA p : Sum(r.rows[p]))
Laws ==
    LET r == Roll(st, 4, 64) f == Fold(r) q == Roll(st, 4, -1) h == Histogram(st, FALSE, FALSE) c == Clusters(st).q IN
    /\ Area(r) = Area(f) /\ f.w = r.w
    /\ \A p \in DOMAIN r.rows : \A k \in 1..r.w : r.rows[p][k] >= q.rows[p][k]                   \* a pedal only prolongs
    /\ (\A k \in DOMAIN st : st[k].cc = <<>>) => Area(r) = Total(Sounding(st), LAMBDA n : n.v * (Later(Col(n.e, 4), Col(n.s, 4)) - Col(n.s, 4)))
    /\ Sum(h) = Len(Sounding(st))
    /\ Len(Onsets(st)) = Len(Notes(st))
    /\ Total(c, LAMBDA x : x.n) = Len(Intervals(st))
    /\ \A k \in DOMAIN c : c[k].sum * 10 >= 128 * c[k].n /\ c[k].sum < 128 * c[k].n               \* 30 to 300 beats a minute
    /\ (Notes(st) # <<>> /\ Whole(st)) => Starts(st, 1, 0) # {} /\ Cardinality(Starts(st, 1, 0)) = 1
=============================================================================
