------------------------------- MODULE Piece -------------------------------
(* MidiNoteSequences (midi/midi_sequences.py): a piece maps track numbers   *)
(* to sequences.  st = [res, tr: track number -> sequence, held: the track  *)
(* whose sequence the caller keeps a reference to, -1 if it was replaced].  *)
EXTENDS Sequence

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NewTrack(ins, res) == Seq0(ins, res, <<>>)
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
RECURSIVE Cat(_, _)
Cat(f, ks) == IF ks = <<>> THEN <<>> ELSE f[ks[1]].notes \o Cat(f, Tail(ks))

(* building from sequences: one track per instrument number *)
RECURSIVE Gather(_, _)
Gather(tr, l) ==
    IF l = <<>> THEN [ok |-> 1, tr |-> tr]
    ELSE LET q == Seq0(l[1].ins, l[1].res, l[1].l)
             k == q.ins[1]
         IN IF k \notin DOMAIN tr THEN Gather(Put(tr, k, q), Tail(l))
            ELSE IF CanMerge(tr[k], q) THEN Gather(Put(tr, k, WithNotes(tr[k], MergeSorted(tr[k], q))), Tail(l))
            ELSE [ok |-> 0, tr |-> tr]

PA(s, r) == [st |-> s, res |-> [ok |-> 1, r |-> r]]
PNo(s) == [st |-> s, res |-> [ok |-> 0, r |-> <<>>]]
Has(s, t) == t \in DOMAIN s.tr
Got(s, t, ins) == IF Has(s, t) THEN s ELSE [s EXCEPT !.tr = Put(@, t, NewTrack(ins, s.res))]
Replace(s, t, q) == [s EXCEPT !.tr = Put(@, t, q), !.held = IF @ = t THEN -1 ELSE @]

PStep(s, e) ==
    CASE e.op = "make" -> LET g == Gather(<<>>, e.l) IN IF g.ok = 1 THEN PA([res |-> e.res, tr |-> g.tr, held |-> -1], <<>>) ELSE PNo(s)
      [] e.op = "create" -> PA(Got(s, e.t, e.ins), <<e.t>>)
      [] e.op = "get" -> LET n == Got(s, e.t, e.ins) IN PA(n, <<View(n.tr[e.t])>>)
      [] e.op = "idx" -> LET n == Got(s, e.t, <<e.t, "Instrument 0", 0>>) IN PA(n, <<View(n.tr[e.t])>>)
      [] e.op = "hold" -> LET n == Got(s, e.t, <<e.t, "Instrument 0", 0>>) IN PA([n EXCEPT !.held = e.t], <<>>)
      [] e.op = "viahold" -> IF s.held = -1 THEN PA(s, <<>>) ELSE PA([s EXCEPT !.tr[s.held] = Grow(@, <<e.n>>)], <<>>)
      [] e.op = "put" -> PA(Replace(s, e.t, Seq0(e.ins, e.res, e.l)), <<>>)
      [] e.op = "putlist" -> PA(Replace(s, e.t, Seq0(Generic, IF e.how = "set" THEN s.res ELSE 220, e.l)), <<>>)
      [] e.op = "note" -> LET n == Got(s, e.t, <<e.t, "Instrument 0", 0>>) IN PA([n EXCEPT !.tr[e.t] = Grow(@, <<e.n>>)], <<>>)
      [] e.op = "quantize" -> PA([s EXCEPT !.tr[e.t] = QuantizeAll(@, e.sps, e.a4, <<>>).q], <<>>)
      [] e.op = "isq" -> PA(s, <<B(\A t \in DOMAIN s.tr : AllQuantized(s.tr[t]))>>)
      [] e.op = "badtrack" -> PNo(s)

PView(s) == LET ks == Asc(DOMAIN s.tr)
    IN [keys |-> ks, tracks |-> [i \in DOMAIN ks |-> View(s.tr[ks[i]])], n |-> Len(ks),
        ni |-> Cardinality({s.tr[k].ins[1] : k \in DOMAIN s.tr}),
        insts |-> [i \in DOMAIN ks |-> s.tr[ks[i]].ins],
        lens |-> [i \in DOMAIN ks |-> Len(s.tr[ks[i]].notes)],
        events |-> ByStart(Cat(s.tr, ks))]
PExpect(s, e, r) == [res |-> r.res, v |-> PView(r.st)]
PJudge(s, e, r) ==
    CASE e.x.res.ok # r.res.ok -> (IF r.res.ok = 0 THEN e.op \o " must be rejected" ELSE e.op \o " must be accepted")
      [] e.x.res # r.res -> "answer of " \o e.op
      [] e.x.v.keys # PView(r.st).keys -> "track numbers after " \o e.op
      [] e.x.v.tracks # PView(r.st).tracks -> "tracks after " \o e.op
      [] e.x.v.events # PView(r.st).events -> "event listing after " \o e.op
      [] e.x.v # PView(r.st) -> "counts and instruments after " \o e.op
      [] OTHER -> "ok"
PEmpty == [res |-> 220, tr |-> <<>>, held |-> -1]
PStart(t) == PEmpty

(* a track that exists is only ever changed by assigning it or adding to it *)
Untouched(s, e) == \A t \in DOMAIN s.tr : e.op \notin {"make", "viahold"} /\ (e.op \notin {"put", "putlist", "note", "quantize"} \/ e.t # t)
                      => t \in DOMAIN PStep(s, e).st.tr /\ PStep(s, e).st.tr[t] = s.tr[t]
===========================================================================
