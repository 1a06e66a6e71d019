---------------------------- MODULE SequenceGen ----------------------------
EXTENDS GenBase, Sequence
CONSTANTS Which, MaxLen
D(s, e, p) == [s |-> s, e |-> e, p |-> p, v |-> 100, pr |-> 0, ins |-> 1, qs |-> -1, qe |-> -1, vo |-> 0, nu |-> 4, de |-> 4, dr |-> 0]
N1 == D(0, 8000, 60)
N2 == D(0, 4000, 64)
N3 == D(4000, 12000, 62)
N4 == D(8000, 9000, 60)
N5 == D(0, 8000, 58)
Far == [N3 EXCEPT !.ins = 2]
Qd == [N4 EXCEPT !.qs = 2, !.qe = 3]
Pool == CASE Which = "edit" -> {N1, N3, N4} [] Which = "sorted" -> {N1, N2, N3, N5} [] Which = "window" -> {N1, N2, N3, N4}
          [] Which = "reject" -> {N1, Far} [] Which = "copy" -> {N1, N3} [] Which = "quant" -> {N1, N3, N4} [] Which = "move" -> {N1, N3, Qd}
Piano == <<1, "Piano", 0>>
Drums == <<1, "Drums", 1>>
DrumN(n) == [n EXCEPT !.dr = 1]
Cc(t) == [n |-> 7, v |-> 90, t |-> t, pr |-> 0, ins |-> 1, dr |-> 0, st |-> 4, qs |-> -1, qe |-> -1]
Pb(t) == [a |-> 100, t |-> t, pr |-> 0, ins |-> 1, dr |-> 0]
Small(s) == Len(s[1].notes) < MaxLen
Edits(s) == IF Small(s) THEN [op : {"append", "addnote", "extend"}, k : {1}, n : Pool]
                 \cup [op : {"appendlist", "extendlist"}, k : {1}, l : {<<>>, <<N4, N1>>}] ELSE {}
SCmds(s) ==
  CASE Which = "edit" -> Edits(s) \cup [op : {"insertg"}, k : {1}, n : IF Small(s) /\ SortedNotes(s[1].notes) THEN Pool ELSE {}]
             \cup [op : {"setnotes"}, k : {1}, l : {<<>>, <<N3, N1>>}] \cup [op : {"cutinplace"}, k : {1}, t : {0, 1, 2, 9}]
             \cup [op : {"stretch"}, k : {1}, num : {2}, den : {1}] \cup [op : {"lastevent"}, k : {1}, t : {0, 8000}] \cup [op : {"minstep", "pitches"}, k : {1}]
    [] Which = "sorted" -> [op : {"insertg"}, k : {1, 2}, n : Pool] \cup [op : {"mergeg"}, k : {1}, y : {2}]
    [] Which = "window" -> [op : {"append"}, k : {1}, n : IF Small(s) THEN Pool ELSE {}]
             \cup {[op |-> "slice", k |-> 1, z |-> 2, a |-> a, b |-> b] : a, b \in {x \in {0, 2000, 4000, 8000, 12000} : TRUE}} 
             \cup [op : {"truncate"}, k : {1}, z : {2}, t : {0, 4000, 8000, 9000, 12000}]
             \cup [op : {"cut"}, k : {1}, z : {2}, t : {0, 1, 2, 5}]
             \cup [op : {"extract"}, k : {1}, ts : {<<0, 4000>>, <<0, 2000, 6000>>, <<2000, 8500, 20000>>, <<0>>, <<4000, 0>>, <<0, 0, 8000>>}]
             \cup {[op |-> "points", k |-> 1, ts |-> ts, skip |-> sk] : ts \in {<<2000, 4000, 8500>>, <<6000, 20000>>}, sk \in {0, 1}}
             \cup {[op |-> "split", k |-> 1, ts |-> SelectSeq([i \in 1..12 |-> i * sp], LAMBDA t : t < s[1].tot), span |-> sp, skip |-> sk]
                      : sp \in {2000, 4000}, sk \in {0, 1}}
    [] Which = "reject" -> [op : {"append", "addnote"}, k : {x \in {1, 2} : s[x].ins[3] = 0}, n : IF Len(s[1].notes) + Len(s[2].notes) < 3 THEN Pool ELSE {}]
             \cup [op : {"mergeg", "sum"}, k : {1}, y : {2, 3}, z : {3}] \cup [op : {"bad"}, k : {1}, how : 1..30]
             \cup [op : {"new"}, k : {2}, ins : {Piano, Drums, <<1, "Other", 0>>, <<2, "Piano", 0>>}, res : {220, 480}, l : {<<>>}]
    [] Which = "copy" -> [op : {"append"}, k : {1}, n : IF Small(s) THEN Pool ELSE {}]
             \cup [op : {"clone", "cloneempty"}, k : {1}, z : {2}] \cup [op : {"sum"}, k : {1}, y : {2}, z : {3}]
             \cup [op : {"addcc"}, k : {1, 2}, c : IF s[1].cc = <<>> THEN {Cc(0)} ELSE {}] \cup [op : {"addpb"}, k : {1}, c : IF s[1].pb = <<>> THEN {Pb(0)} ELSE {}]
             \cup [op : {"retune"}, k : {k \in {1, 2, 3} : s[k].notes # <<>> /\ s[k].notes[1].p < 62}, t : {1}]
             \cup [op : {"bend"}, k : {k \in {1, 2} : s[k].pb # <<>> /\ s[k].pb[1].t = 0}, t : {8000}]
             \cup [op : {"control"}, k : {k \in {1, 2} : s[k].cc # <<>> /\ s[k].cc[1].t = 0}, t : {8000}]
    [] Which = "quant" -> [op : {"append"}, k : {1}, n : IF Small(s) THEN Pool ELSE {}] \cup [op : {"addcc"}, k : {1}, c : IF Len(s[1].cc) < 2 THEN {Cc(0), Cc(3000)} ELSE {}]
             \cup [op : {"clone"}, k : {1}, z : {2}]
             \cup (IF s[1].notes # <<>> /\ \A i \in DOMAIN s[1].notes : ~IsQuantized(s[1].notes[i])
                   THEN [op : {"quantize"}, k : {1}, sps : {1, 2, 4, 8}, a4 : {2, 4}, qn : {<<>>}] ELSE {})
             \cup [op : {"strict"}, k : {1}]
    [] Which = "move" -> [op : {"append"}, k : {1}, n : IF Small(s) THEN Pool ELSE {}]
             \cup [op : {"shift"}, k : {1}, t : {x \in {-4000, 8000} : s[1].tot < 40000 /\ (x > 0 \/ (s[1].tot >= 4000 /\ \E i \in DOMAIN s[1].notes : s[1].notes[i].e >= 4000))}]
             \cup [op : {"stretch"}, k : {1}, num : {IF s[1].tot < 40000 THEN 3 ELSE 1},
                  den : {IF \A i \in DOMAIN s[1].notes : s[1].notes[i].s % 2 = 0 /\ s[1].notes[i].e % 2 = 0 THEN 2 ELSE 1}]
SStart0 == IF Which = "drum" THEN <<Seq0(Drums, 220, <<>>), Seq0(Drums, 220, <<>>), Blank>>
           ELSE <<Seq0(Piano, 220, <<>>), Seq0(Piano, 220, <<>>), Blank>>
Laws == /\ Which \in {"edit", "sorted", "reject", "move"} => TotalIsLatestEnd(st)
        /\ Which = "window" => WindowLaws(st[1])
        /\ Which = "move" => ShiftBack(st[1])
        /\ Which = "sorted" => MergeLaws(st[1], st[2]) /\ SortedNotes(st[1].notes) /\ \A n \in Pool : InsertLaws(st[1], n)
Rejected == \A e \in SCmds(st) : LET r == QStep(st, e) IN r.res.ok = 0 => r.st = st
Independent == \A e \in SCmds(st) : e.op \notin {"clone", "cloneempty", "sum", "slice", "truncate", "cut"} =>
                  \A k \in DOMAIN st : k # e.k => QStep(st, e).st[k] = st[k]
============================================================================
