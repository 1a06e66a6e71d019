------------------------------- MODULE Saving -------------------------------
(* Pieces and sequences made in memory, and the files they are saved to      *)
(* (midi_reader.py write/to_pretty_midi, midi_sequence.py to_midi_file,      *)
(* callbacks.py).  The state is the piece: resolution, signatures, and its   *)
(* sequences with notes and controllers placed on ticks.  A file holds the   *)
(* piece's events, one file track per sequence; what it says is what Reading *)
(* understands of those events.                                              *)
EXTENDS Reading

NewPiece(e) == [res |-> e.res, te |-> e.te, ts |-> e.ts, ks |-> e.ks, seqs |-> <<>>]
NewSeq(e) == [pr |-> e.pr, name |-> e.name, dr |-> e.dr, notes |-> <<>>, cc |-> <<>>, pb |-> <<>>]
Channel(q) == IF q.dr = 1 THEN PercussionChannel ELSE 0

(* ---- the events of a sequence: at each tick bends, controllers, releases, onsets *)
Marked(q) ==
    LET c == Channel(q)
        n == Len(q.notes)
    IN [i \in 1..Len(q.pb) |-> [t |-> q.pb[i].t, k |-> 1, op |-> "pb", c |-> c, a |-> q.pb[i].a]]
       \o [i \in 1..Len(q.cc) |-> [t |-> q.cc[i].t, k |-> 2, op |-> "cc", c |-> c, n |-> q.cc[i].n, v |-> q.cc[i].v]]
       \o [i \in 1..n |-> [t |-> q.notes[i].e, k |-> 3, op |-> "off", c |-> c, p |-> q.notes[i].p]]
       \o [i \in 1..n |-> [t |-> q.notes[i].s, k |-> 4, op |-> "on", c |-> c, p |-> q.notes[i].p, v |-> q.notes[i].v]]
EvLess(a, b) == a.t < b.t \/ (a.t = b.t /\ a.k < b.k)
EventsOf(q) == SortSeq(Marked(q), EvLess)
LastTick(q) == FoldLeft(LAMBDA a, e : IF e.t > a THEN e.t ELSE a, 0, Marked(q)) + 1
FileTrack(s, q) ==
    LET s0 == [s EXCEPT !.name = q.name, !.prog[Channel(q)] = q.pr]
        s1 == FoldLeft(LAMBDA a, e : GStep(a, e).st, s0, EventsOf(q))
    IN EndTrack(s1, LastTick(q))
Signed(m) ==
    LET s0 == NewFile(m.res)
        s1 == FoldLeft(LAMBDA a, x : [a EXCEPT !.tempo = SetTempo(@, x.t, x.q)], s0, m.te)
    IN EndTrack([s1 EXCEPT !.ts = m.ts, !.ks = m.ks], 0)
Filed(m) == FoldLeft(FileTrack, Signed(m), m.seqs)
(* a sequence on its own: notes only, 120 quarters a minute, 220 ticks each *)
Alone(m, k) == FileTrack(EndTrack(NewFile(220), 0), [m.seqs[k] EXCEPT !.cc = <<>>, !.pb = <<>>])
Plain(m) == m.res = 220 /\ \A i \in DOMAIN m.te : m.te[i].q = 500

Placed(l, n) == LET k == Len(SelectSeq(l, LAMBDA x : x.s <= n.s)) IN SubSeq(l, 1, k) \o <<n>> \o SubSeq(l, k + 1, Len(l))
ByOnset(l) == FoldLeft(Placed, <<>>, l)         \* stable

WStep(s, e) ==
    CASE e.op = "new" -> Ans(NewPiece(e), <<>>)
      [] e.op = "seq" -> Ans([s EXCEPT !.seqs = Append(@, NewSeq(e))], <<>>)
      [] e.op = "note" -> Ans([s EXCEPT !.seqs[e.k].notes = Append(@, e.n)], <<>>)
      [] e.op = "cc" -> Ans([s EXCEPT !.seqs[e.k].cc = Append(@, e.n)], <<>>)
      [] e.op = "pb" -> Ans([s EXCEPT !.seqs[e.k].pb = Append(@, e.n)], <<>>)
      [] e.op = "write" -> Ans(s, Rewritten(Filed(s)))
      [] e.op = "save" -> Ans(s, IF s.seqs[e.k].notes = <<>> THEN "raise" ELSE Rewritten(Alone(s, e.k)))
      [] e.op = "handed" -> Ans(s, [ins |-> <<s.seqs[e.k].pr, s.seqs[e.k].name, s.seqs[e.k].dr>>, notes |-> ByOnset(s.seqs[e.k].notes),
                                    tot |-> Latest(s.seqs[e.k].notes)])     \* what a callback is given
WExpect(s, e, r) == r.res
WJudge(s, e, r) == GJudge(s, e, r)
WStart0 == [res |-> 220, te |-> <<>>, ts |-> <<>>, ks |-> <<>>, seqs |-> <<>>]
WStart(t) == WStart0

(* ---- laws of the specification itself *)
Apart(q) == \A i, j \in DOMAIN q.notes : i # j => (q.notes[i].s = q.notes[j].s /\ q.notes[i].e = q.notes[j].e /\ q.notes[i].p # q.notes[j].p)
                                                \/ q.notes[i].e <= q.notes[j].s \/ q.notes[j].e <= q.notes[i].s
Bare(l) == Sorted([i \in DOMAIN l |-> [p |-> l[i].p, v |-> l[i].v, s |-> l[i].s, e |-> l[i].e]])
NoneLost(m) == LET f == Filed(m)
                   held == SelectSeq(m.seqs, LAMBDA q : q.notes # <<>>)
               IN /\ Len(f.seqs) = Len(held)
                  /\ \A i \in DOMAIN held : /\ Len(f.seqs[i].notes) = Len(held[i].notes)
                                            /\ Apart(held[i]) => Bare(f.seqs[i].notes) = Bare(held[i].notes)
                                            /\ f.seqs[i].pr = held[i].pr /\ f.seqs[i].dr = held[i].dr /\ f.seqs[i].name = held[i].name
==============================================================================
