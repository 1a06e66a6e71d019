----------------------------- MODULE Sequence -----------------------------
(* MidiNoteSequence (midi/midi_sequence.py): three sequences side by side, *)
(* so that operations on one, and on copies of it, can be seen not to      *)
(* touch the others.  A sequence is                                        *)
(*   ins: <<number, name, percussion>>, res, notes, tot (latest end),      *)
(*   cc: controller events, pb: pitch bends, tqs: last quantized step      *)
EXTENDS Note, SequencesExt

RECURSIVE MaxEnd(_)
MaxEnd(l) == IF l = <<>> THEN 0 ELSE MaxI(l[1].e, MaxEnd(Tail(l)))
RECURSIVE MaxQE(_)
MaxQE(l) == IF l = <<>> THEN 0 ELSE MaxI(l[1].qe, MaxQE(Tail(l)))
Seq0(ins, res, notes) == [ins |-> ins, res |-> res, notes |-> notes, tot |-> MaxEnd(notes), cc |-> <<>>, pb |-> <<>>, tqs |-> 0]
Generic == <<0, "Generic", 0>>
Blank == Seq0(Generic, 220, <<>>)
AllQuantized(q) == \A i \in DOMAIN q.notes : IsQuantized(q.notes[i])
Foreign(q) == \E i \in DOMAIN q.notes : q.notes[i].ins # q.ins[1]

WithNotes(q, l) == [q EXCEPT !.notes = l, !.tot = MaxEnd(l)]
Grow(q, l) == [q EXCEPT !.notes = @ \o l, !.tot = MaxI(@, MaxEnd(l))]
InsertPos(l, n) == Cardinality({i \in DOMAIN l : Lt(l[i], n)}) + 1
PutAt(l, k, n) == SubSeq(l, 1, k - 1) \o <<n>> \o SubSeq(l, k, Len(l))
FirstN(l, n) == SubSeq(l, 1, MinI(n, Len(l)))
MapS(l, F(_)) == [i \in DOMAIN l |-> F(l[i])]
RECURSIVE StableIns(_, _)
StableIns(l, n) == IF l = <<>> THEN <<n>> ELSE IF n.s < l[1].s THEN <<n>> \o l ELSE <<l[1]>> \o StableIns(Tail(l), n)
RECURSIVE ByStart(_)
ByStart(l) == IF l = <<>> THEN <<>> ELSE StableIns(ByStart(SubSeq(l, 1, Len(l) - 1)), l[Len(l)])

(* smallest start-to-start distance of neighbours that leave a gap, 0 if there are none *)
Gaps(l) == {l[i + 1].s - l[i].s : i \in {j \in 1..(Len(l) - 1) : l[j].e < l[j + 1].s}}
MinStep(l) == IF Gaps(l) = {} THEN 0 ELSE CHOOSE g \in Gaps(l) : \A h \in Gaps(l) : g <= h

(* ---- the answers *)
Fine(q, r) == [ok |-> 1, q |-> q, r |-> r]
No(q) == [ok |-> 0, q |-> q, r |-> <<>>]

AddNote(q, n) == IF n.ins # q.ins[1] THEN No(q) ELSE Fine(Grow(q, <<n>>), <<>>)
ShiftAll(q, d) == IF AllQuantized(q) THEN No(q)
                  ELSE Fine([q EXCEPT !.notes = MapS(q.notes, LAMBDA n : Shift(n, d)), !.tot = @ + d], <<>>)
StretchAll(q, num, den) == Fine([q EXCEPT !.notes = MapS(q.notes, LAMBDA n : Stretch(n, num, den)), !.tot = (@ * num) \div den], <<>>)

(* ---- quantization; qn holds the individual quantizations of notes that were already quantized *)
QuantCC(c, sps, a4) == LET k == FloorStep(c.t, sps, a4) IN [c EXCEPT !.qs = k, !.qe = k + 1, !.st = sps]
QuantNotes(q, sps, a4, qn) ==
    [i \in DOMAIN q.notes |-> IF IsQuantized(q.notes[i]) THEN qn[i] ELSE Quantize(q.notes[i], sps, a4)]
QuantizeAll(q, sps, a4, qn) ==
    LET l == QuantNotes(q, sps, a4, qn)
    IN Fine([WithNotes(q, l) EXCEPT !.cc = MapS(q.cc, LAMBDA c : QuantCC(c, sps, a4)), !.tqs = MaxQE(l)], <<>>)

(* ---- windows: new sequences *)
ClipEnd(n, t) == [n EXCEPT !.e = MinI(@, t)]
SliceOf(q, s, e) ==
    LET in == SelectSeq(q.notes, LAMBDA n : s <= n.s /\ n.s < e)
    IN  IF \E i \in DOMAIN in : in[i].ins # q.ins[1] THEN No(q)
        ELSE Fine([q EXCEPT !.notes = MapS(in, LAMBDA n : ClipEnd(n, e)), !.tot = MinI(@, e), !.cc = <<>>, !.pb = <<>>], <<>>)
TruncateOf(q, t) == Fine([Seq0(q.ins, 220, SelectSeq(q.notes, LAMBDA n : n.e <= t)) EXCEPT !.tot = MinI(q.tot, t)], <<>>)
CutOf(q, n) == Fine(Seq0(q.ins, 220, FirstN(q.notes, n)), <<>>)
Piece(q, a, b) == LET in == SelectSeq(ByStart(q.notes), LAMBDA n : a <= n.s /\ n.s < b)
                  IN MapS(in, LAMBDA n : Shift(ClipEnd(n, b), -a))
ExtractOf(q, ts) ==
    IF \/ AllQuantized(q) \/ Len(ts) < 2
       \/ \E i \in 1..(Len(ts) - 1) : ts[i] > ts[i + 1] \/ ts[i] >= q.tot
    THEN No(q)
    ELSE Fine(q, [i \in 1..(Len(ts) - 1) |-> Seq0(q.ins, q.res, Piece(q, ts[i], ts[i + 1]))])
(* split points of a regular or given split; a point inside a sounding note may be left out *)
Crossed(q, t) == \E i \in DOMAIN q.notes : q.notes[i].s < t /\ t < q.notes[i].e
SplitTimes(q, pts, skip) ==
    LET kept == SelectSeq(pts, LAMBDA t : ~(skip = 1 /\ Crossed(q, t)))
        front == <<0>> \o kept
    IN IF q.tot > front[Len(front)] THEN Append(front, q.tot) ELSE front
SplitOf(q, pts, skip) ==
    LET ts == SplitTimes(q, pts, skip) IN IF Len(ts) <= 1 THEN Fine(q, <<>>) ELSE ExtractOf(q, ts)

Clone(q) == q
CloneEmpty(q) == [q EXCEPT !.notes = <<>>, !.cc = <<>>, !.pb = <<>>]
CanSum(p, q) == p.ins = q.ins /\ ~Foreign(p) /\ ~Foreign(q)
SumOf(p, q) == IF CanSum(p, q) THEN Fine(Seq0(p.ins, p.res, p.notes \o q.notes), <<>>) ELSE No(p)
CanMerge(p, q) == CanSum(p, q) /\ p.res = q.res
MergeSorted(p, q) == SortSeq(p.notes \o q.notes, Lt)

(* ---- the machine: e.x is the slot worked on, e.y the other operand, e.z the slot of a result *)
Upd(s, k, a) == [st |-> [s EXCEPT ![k] = a.q], res |-> [ok |-> a.ok, r |-> a.r]]
Into(s, z, a) == [st |-> IF a.ok = 1 THEN [s EXCEPT ![z] = a.q] ELSE s, res |-> [ok |-> a.ok, r |-> a.r]]

QStep(s, e) ==
    CASE e.op = "new" -> Upd(s, e.k, Fine(Seq0(e.ins, e.res, e.l), <<>>))
      [] e.op = "fromnotes" -> Upd(s, e.k, Fine(Seq0(Generic, 220, e.l), <<>>))
      [] e.op = "newnum" -> Upd(s, e.k, Fine(Seq0(<<e.t, "Instrument", 0>>, 220, e.l), <<>>))
      [] e.op = "pitches" -> Upd(s, e.k, Fine(s[e.k], LET l == ByStart(s[e.k].notes) IN [i \in DOMAIN l |-> l[i].p]))
      [] e.op = "points" -> Upd(s, e.k, Fine(s[e.k], <<0>> \o SelectSeq(e.ts, LAMBDA t : ~(e.skip = 1 /\ Crossed(s[e.k], t)))))
      [] e.op = "setins" -> Upd(s, e.k, Fine([s[e.k] EXCEPT !.ins = e.ins], <<>>))
      [] e.op = "setres" -> Upd(s, e.k, Fine([s[e.k] EXCEPT !.res = e.t], <<>>))
      [] e.op = "minstep" -> Upd(s, e.k, Fine(s[e.k], <<MinStep(ByStart(s[e.k].notes))>>))
      [] e.op = "append" -> Upd(s, e.k, Fine(Grow(s[e.k], <<e.n>>), <<>>))
      [] e.op = "extend" -> Upd(s, e.k, Fine(Grow(s[e.k], <<e.n>>), <<>>))
      [] e.op = "appendlist" -> Upd(s, e.k, Fine(Grow(s[e.k], e.l), <<>>))
      [] e.op = "extendlist" -> Upd(s, e.k, Fine(Grow(s[e.k], e.l), <<>>))
      [] e.op = "addnote" -> Upd(s, e.k, AddNote(s[e.k], e.n))
      [] e.op = "insert" -> Upd(s, e.k, Fine(WithNotes(s[e.k], PutAt(s[e.k].notes, e.pos, e.n)), <<>>))
      [] e.op = "insertg" -> Upd(s, e.k, Fine(WithNotes(s[e.k], PutAt(s[e.k].notes, InsertPos(s[e.k].notes, e.n), e.n)), <<>>))
      [] e.op = "setnotes" -> Upd(s, e.k, Fine(WithNotes(s[e.k], e.l), <<>>))
      [] e.op = "cutinplace" -> Upd(s, e.k, Fine(WithNotes(s[e.k], FirstN(s[e.k].notes, e.t)), <<>>))
      [] e.op = "shift" -> Upd(s, e.k, ShiftAll(s[e.k], e.t))
      [] e.op = "stretch" -> Upd(s, e.k, StretchAll(s[e.k], e.num, e.den))
      [] e.op = "quantize" -> Upd(s, e.k, QuantizeAll(s[e.k], e.sps, e.a4, e.qn))
      [] e.op = "merge" -> Upd(s, e.k, IF CanMerge(s[e.k], s[e.y]) THEN Fine(WithNotes(s[e.k], e.got), <<>>) ELSE No(s[e.k]))
      [] e.op = "mergeg" -> Upd(s, e.k, IF CanMerge(s[e.k], s[e.y]) THEN Fine(WithNotes(s[e.k], MergeSorted(s[e.k], s[e.y])), <<>>)
                                        ELSE No(s[e.k]))
      [] e.op = "addcc" -> Upd(s, e.k, Fine([s[e.k] EXCEPT !.cc = Append(@, e.c)], <<>>))
      [] e.op = "addpb" -> Upd(s, e.k, Fine([s[e.k] EXCEPT !.pb = Append(@, e.c)], <<>>))
      [] e.op = "bend" -> Upd(s, e.k, Fine([s[e.k] EXCEPT !.pb[1].t = @ + e.t], <<>>))
      [] e.op = "control" -> Upd(s, e.k, Fine([s[e.k] EXCEPT !.cc[1].t = @ + e.t], <<>>))
      [] e.op = "retune" -> Upd(s, e.k, Fine([s[e.k] EXCEPT !.notes[e.t].p = (@ + 1) % 128], <<>>))
      [] e.op = "clone" -> Into(s, e.z, Fine(Clone(s[e.k]), <<>>))
      [] e.op = "cloneempty" -> Into(s, e.z, Fine(CloneEmpty(s[e.k]), <<>>))
      [] e.op = "sum" -> Into(s, e.z, SumOf(s[e.k], s[e.y]))
      [] e.op = "slice" -> Into(s, e.z, SliceOf(s[e.k], e.a, e.b))
      [] e.op = "truncate" -> Into(s, e.z, TruncateOf(s[e.k], e.t))
      [] e.op = "cut" -> Into(s, e.z, CutOf(s[e.k], e.t))
      [] e.op = "extract" -> Upd(s, e.k, ExtractOf(s[e.k], e.ts))
      [] e.op = "split" -> Upd(s, e.k, SplitOf(s[e.k], e.ts, e.skip))
      [] e.op = "lastevent" -> Upd(s, e.k, Fine(s[e.k], <<MaxEnd(s[e.k].notes) + e.t>>))
      [] e.op = "strict" -> Upd(s, e.k, IF AllQuantized(s[e.k]) THEN Fine(s[e.k], <<>>) ELSE No(s[e.k]))
      [] e.op = "bad" -> Upd(s, e.k, No(s[e.k]))

View(q) == [ins |-> q.ins, res |-> q.res, notes |-> q.notes, tot |-> q.tot, cc |-> q.cc, pb |-> q.pb, tqs |-> q.tqs,
            len |-> Len(q.notes), isq |-> B(AllQuantized(q))]
ViewRes(e, r) == IF e.op \in {"extract", "split"} /\ r.res.ok = 1
                 THEN [ok |-> 1, r |-> [i \in DOMAIN r.res.r |-> View(r.res.r[i])]] ELSE r.res
QExpect(s, e, r) == [res |-> ViewRes(e, r), all |-> [k \in DOMAIN r.st |-> View(r.st[k])]]
QJudge(s, e, r) ==
    CASE e.op = "insert" /\ SortedNotes(s[e.k].notes) /\ ~SortedNotes(PutAt(s[e.k].notes, e.pos, e.n)) -> "insertion keeps a sorted sequence sorted"
      [] e.op = "merge" /\ r.res.ok = 1 /\ ~SameBag(e.got, s[e.k].notes \o s[e.y].notes) -> "a merge keeps all notes of both"
      [] e.op = "merge" /\ r.res.ok = 1 /\ ~SortedNotes(e.got) -> "a merge is sorted"
      [] e.x.res.ok # r.res.ok -> (IF r.res.ok = 0 THEN e.op \o " must be rejected" ELSE e.op \o " must be accepted")
      [] e.x.res # ViewRes(e, r) -> "result of " \o e.op
      [] \E k \in DOMAIN r.st : e.x.all[k].notes # r.st[k].notes -> "notes after " \o e.op
      [] \E k \in DOMAIN r.st : e.x.all[k].tot # r.st[k].tot -> "total time after " \o e.op
      [] \E k \in DOMAIN r.st : e.x.all[k].len # Len(r.st[k].notes) -> "length, indexing, iteration or event list after " \o e.op
      [] \E k \in DOMAIN r.st : e.x.all[k] # View(r.st[k]) -> "settings and events after " \o e.op
      [] OTHER -> "ok"
QStart(t) == <<Blank, Blank, Blank>>

(* ---- what the specification itself guarantees (checked on the bounded instance) *)
TotalIsLatestEnd(s) == \A k \in DOMAIN s : s[k].tot = MaxEnd(s[k].notes)
ShiftBack(q) == \A d \in {1000, 8000} : ~AllQuantized(q) => ShiftAll(ShiftAll(q, d).q, -d).q = q
WindowLaws(q) == \A a, b \in {0, 4000, 8000, 12000} : a < b /\ ~Foreign(q) =>
    LET w == SliceOf(q, a, b).q IN /\ \A i \in DOMAIN w.notes : w.notes[i].s < w.notes[i].e /\ w.notes[i].e <= b /\ w.notes[i].s >= a
                                   /\ Len(w.notes) = Cardinality({i \in DOMAIN q.notes : q.notes[i].s >= a /\ q.notes[i].s < b})
MergeLaws(p, q) == CanMerge(p, q) => SortedNotes(MergeSorted(p, q)) /\ SameBag(MergeSorted(p, q), p.notes \o q.notes)
InsertLaws(q, n) == SortedNotes(q.notes) => SortedNotes(PutAt(q.notes, InsertPos(q.notes, n), n))
===========================================================================
