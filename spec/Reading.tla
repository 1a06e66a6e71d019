------------------------------ MODULE Reading -------------------------------
(* Reading a MIDI file (midi_reader.py read, custom_pretty_midi.py): the     *)
(* state is what has been understood of the file so far, the events are the  *)
(* file's, track after track, with absolute ticks.  "read" is the library's  *)
(* answer for the file as it is then (with every unfinished track ended).    *)
(* Times of an answer are whole multiples of 1/(1000 * u * res) s, because   *)
(* every tempo q is in 1/u milliseconds a quarter note (u is 1 or 1000); res *)
(* is ticks a quarter note.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Sig == INSTANCE Signatures

PercussionChannel == 9
NewFileOf(res, u) == [res |-> res, trk |-> 1, now |-> 0, name |-> "", prog |-> [c \in 0..15 |-> 0], open |-> <<>>, wait |-> <<>>,
                 seqs |-> <<>>, tempo |-> <<[t |-> 0, q |-> 500 * u]>>, ts |-> <<>>, ks |-> <<>>]
NewFile(res) == NewFileOf(res, 1)

(* ---------------------------------------------------------------- tempo -- *)
Lesser(a, b) == IF a < b THEN a ELSE b
Ticks2Time(tl, k) ==
    LET seg(i) == LET hi == IF i = Len(tl) THEN k ELSE Lesser(k, tl[i + 1].t)
                  IN IF hi > tl[i].t THEN tl[i].q * (hi - tl[i].t) ELSE 0
    IN FoldLeft(LAMBDA acc, i : acc + seg(i), 0, [i \in DOMAIN tl |-> i])
SetTempo(tl, t, q) == IF t = 0 THEN <<[t |-> 0, q |-> q]>>
                      ELSE IF tl[Len(tl)].q = q THEN tl ELSE Append(tl, [t |-> t, q |-> q])

(* ---------------------------------------------------------------- notes -- *)
Find(s, c) == {i \in DOMAIN s.seqs : s.seqs[i].trk = s.trk /\ s.seqs[i].c = c /\ s.seqs[i].pr = s.prog[c]}
Waiting(s, c, k) == LET w == SelectSeq(s.wait, LAMBDA x : x.c = c /\ x.k = k) IN [i \in DOMAIN w |-> w[i].r]
Opened(s, c) ==
    IF Find(s, c) # {} THEN s
    ELSE [s EXCEPT !.seqs = Append(@, [trk |-> s.trk, c |-> c, pr |-> s.prog[c], name |-> s.name, dr |-> IF c = PercussionChannel THEN 1 ELSE 0,
                                       notes |-> <<>>, cc |-> Waiting(s, c, "cc"), pb |-> Waiting(s, c, "pb")])]
CloseOne(s, n, t) ==
    LET s1 == Opened(s, n.c)
        i == CHOOSE i \in Find(s1, n.c) : TRUE
    IN IF t = n.t THEN s1 ELSE [s1 EXCEPT !.seqs[i].notes = Append(@, [p |-> n.p, v |-> n.v, s |-> n.t, e |-> t])]
Close(s, l, t) == FoldLeft(LAMBDA acc, n : CloseOne(acc, n, t), s, l)

NoteOn(s, e) ==
    LET s1 == Close(s, SelectSeq(s.open, LAMBDA n : n.t < e.t), e.t)
    IN [s1 EXCEPT !.open = Append(SelectSeq(s.open, LAMBDA n : n.t = e.t), [c |-> e.c, p |-> e.p, v |-> e.v, t |-> e.t])]
Released(n, e) == n.c = e.c /\ n.p = e.p /\ n.t < e.t
NoteOff(s, e) ==
    LET s1 == Close(s, SelectSeq(s.open, LAMBDA n : Released(n, e)), e.t)
    IN [s1 EXCEPT !.open = SelectSeq(s.open, LAMBDA n : ~Released(n, e))]
EndTrack(s, t) == [Close(s, s.open, t) EXCEPT !.trk = @ + 1, !.now = 0, !.name = "", !.prog = [c \in 0..15 |-> 0], !.open = <<>>, !.wait = <<>>]

Control(s, c, k, r) ==
    LET f == Find(s, c)
    IN IF f = {} THEN [s EXCEPT !.wait = Append(@, [c |-> c, k |-> k, r |-> r])]
       ELSE LET i == CHOOSE i \in f : TRUE IN IF k = "cc" THEN [s EXCEPT !.seqs[i].cc = Append(@, r)] ELSE [s EXCEPT !.seqs[i].pb = Append(@, r)]

(* --------------------------------------------------------------- answer -- *)
NoteLess(a, b) ==
    LET ka == <<a.e, a.s, a.p, a.v>>
        kb == <<b.e, b.s, b.p, b.v>>
    IN \E i \in 1..4 : ka[i] < kb[i] /\ \A j \in 1..(i - 1) : ka[j] = kb[j]
Sorted(l) == SortSeq(l, NoteLess)
Latest(l) == FoldLeft(LAMBDA a, n : IF n.e > a THEN n.e ELSE a, 0, l)
Timed(s, l, default) ==
    FoldLeft(LAMBDA acc, x : Sig!Add(acc, [t |-> Ticks2Time(s.tempo, x.t), a |-> x.a, b |-> x.b]), <<default>>, l)
Piece(s) ==
    LET T(k) == Ticks2Time(s.tempo, k)
        ts == Timed(s, s.ts, [t |-> 0, a |-> 4, b |-> 4])
        note(n) == LET g == Sig!InForce(ts, T(n.s)) IN [p |-> n.p, v |-> n.v, s |-> T(n.s), e |-> T(n.e), nu |-> g.a, de |-> g.b]
        one(i) == LET q == s.seqs[i]
                      l == Sorted([j \in DOMAIN q.notes |-> note(q.notes[j])])
                  IN [pr |-> q.pr, name |-> q.name, dr |-> q.dr, tot |-> Latest(l), notes |-> l,
                      cc |-> [j \in DOMAIN q.cc |-> [n |-> q.cc[j].n, v |-> q.cc[j].v, t |-> T(q.cc[j].t), m |-> <<q.pr, i - 1, q.dr>>]],
                      pb |-> [j \in DOMAIN q.pb |-> [a |-> q.pb[j].a, t |-> T(q.pb[j].t), m |-> <<q.pr, i - 1, q.dr>>]]]
        seqs == [i \in DOMAIN s.seqs |-> one(i)]
    IN [res |-> s.res, seqs |-> seqs,
        total |-> FoldLeft(LAMBDA a, q : IF q.tot > a THEN q.tot ELSE a, 0, seqs),
        te |-> [i \in DOMAIN s.tempo |-> [t |-> T(s.tempo[i].t), q |-> s.tempo[i].q]],
        ts |-> ts, ks |-> Timed(s, s.ks, [t |-> 0, a |-> 0, b |-> 0])]
AllNotes(x) == Sorted(FoldLeft(LAMBDA a, q : a \o q.notes, <<>>, x.seqs))
View(focus, x) ==
    CASE focus = "notes" -> [notes |-> AllNotes(x)]
      [] focus = "seqs" -> [res |-> x.res, total |-> x.total,
                            seqs |-> [i \in DOMAIN x.seqs |-> [pr |-> x.seqs[i].pr, name |-> x.seqs[i].name, dr |-> x.seqs[i].dr,
                                                               tot |-> x.seqs[i].tot, notes |-> x.seqs[i].notes]]]
      [] focus = "cc" -> [seqs |-> [i \in DOMAIN x.seqs |-> [cc |-> x.seqs[i].cc, pb |-> x.seqs[i].pb]]]
      [] focus = "tempo" -> [te |-> x.te, notes |-> AllNotes(x)]
      [] focus = "all" -> x

(* -------------------------------------------------- write and read back -- *)
(* Times are ticks here.  Sequences without notes have nothing to be heard.   *)
CcLess(a, b) == a.t < b.t \/ (a.t = b.t /\ (a.n < b.n \/ (a.n = b.n /\ a.v < b.v)))
PbLess(a, b) == a.t < b.t \/ (a.t = b.t /\ a.a < b.a)
AtTicks(s, l, default) == FoldLeft(LAMBDA acc, x : Sig!Add(acc, x), <<default>>, l)
Rewritten(s) ==
    LET ts == AtTicks(s, s.ts, [t |-> 0, a |-> 4, b |-> 4])
        note(n) == LET g == Sig!InForce(ts, n.s) IN [p |-> n.p, v |-> n.v, s |-> n.s, e |-> n.e, nu |-> g.a, de |-> g.b]
        kept == SelectSeq(s.seqs, LAMBDA q : q.notes # <<>>)
        one(i) == LET q == kept[i]
                      l == Sorted([j \in DOMAIN q.notes |-> note(q.notes[j])])
                      m == <<q.pr, i - 1, q.dr>>
                      cc == SortSeq(q.cc, CcLess)
                      pb == SortSeq(q.pb, PbLess)
                  IN [pr |-> q.pr, name |-> q.name, dr |-> q.dr, tot |-> Latest(l), notes |-> l,
                      cc |-> [j \in DOMAIN cc |-> [n |-> cc[j].n, v |-> cc[j].v, t |-> cc[j].t, m |-> m]],
                      pb |-> [j \in DOMAIN pb |-> [a |-> pb[j].a, t |-> pb[j].t, m |-> m]]]
        seqs == [i \in DOMAIN kept |-> one(i)]
    IN [res |-> s.res, seqs |-> seqs, total |-> FoldLeft(LAMBDA a, q : IF q.tot > a THEN q.tot ELSE a, 0, seqs),
        te |-> s.tempo, ts |-> ts, ks |-> AtTicks(s, s.ks, [t |-> 0, a |-> 0, b |-> 0]), same |-> 1]

(* ---------------------------------------------------------------- steps -- *)
CONSTANT Focus      \* which part of an answer is judged
Ans(s, r) == [st |-> s, res |-> r]
First(s) == s.trk = 1
GStep(s, e) ==
    CASE e.op = "file" -> Ans(NewFileOf(e.res, IF "u" \in DOMAIN e THEN e.u ELSE 1), <<>>)
      [] e.op = "on" -> Ans([NoteOn(s, e) EXCEPT !.now = e.t], <<>>)
      [] e.op = "off" -> Ans([NoteOff(s, e) EXCEPT !.now = e.t], <<>>)
      [] e.op = "end" -> Ans(EndTrack(s, e.t), <<>>)
      [] e.op = "prog" -> Ans([s EXCEPT !.prog[e.c] = e.p, !.now = e.t], <<>>)
      [] e.op = "cc" -> Ans([Control(s, e.c, "cc", [n |-> e.n, v |-> e.v, t |-> e.t]) EXCEPT !.now = e.t], <<>>)
      [] e.op = "pb" -> Ans([Control(s, e.c, "pb", [a |-> e.a, t |-> e.t]) EXCEPT !.now = e.t], <<>>)
      [] e.op = "name" -> Ans([s EXCEPT !.name = e.n, !.now = e.t], <<>>)
      [] e.op = "tempo" -> Ans([s EXCEPT !.tempo = IF First(s) THEN SetTempo(@, e.t, e.q) ELSE @, !.now = e.t], <<>>)
      [] e.op = "ts" -> Ans([s EXCEPT !.ts = IF First(s) THEN Append(@, [t |-> e.t, a |-> e.a, b |-> e.b]) ELSE @, !.now = e.t], <<>>)
      [] e.op = "ks" -> Ans([s EXCEPT !.ks = IF First(s) THEN Append(@, [t |-> e.t, a |-> e.a, b |-> e.b]) ELSE @, !.now = e.t], <<>>)
      [] e.op = "other" -> Ans([s EXCEPT !.now = e.t], <<>>)
      [] e.op = "read" -> Ans(s, View(Focus, Piece(EndTrack(s, e.t))))
      [] e.op = "rewrite" -> Ans(s, Rewritten(EndTrack(s, e.t)))
      [] e.op = "tick" -> Ans(s, <<Ticks2Time(s.tempo, e.t), e.t>>)
      [] e.op = "near" -> LET k == IF e.f < 50 THEN e.t ELSE e.t + 1 IN Ans(s, <<k, k>>)   \* f hundredths of the way to the next tick
      [] e.op = "again" -> Ans(s, e.was)          \* an earlier piece stays what it was
      [] e.op = "bad" -> Ans(s, "raise")
GExpect(s, e, r) == r.res
GJudge(s, e, r) ==
    IF e.x = r.res THEN "ok"
    ELSE IF e.op \notin {"read", "rewrite"} THEN "answer to " \o e.op
    ELSE LET d == {f \in DOMAIN r.res : f \notin DOMAIN e.x \/ e.x[f] # r.res[f]}
         IN IF d = {} THEN e.op \o ": extra fields" ELSE e.op \o ": " \o (CHOOSE f \in d : TRUE)
GStart0 == NewFile(480)
GStart(t) == GStart0

(* ----------------------------------------------------------------- laws -- *)
NoteCount(s) == FoldLeft(LAMBDA a, q : a + Len(q.notes), 0, s.seqs)
OpenTogether(s) == \A i, j \in DOMAIN s.open : s.open[i].t = s.open[j].t
Sounding(s) == \A i \in DOMAIN s.seqs : \A j \in DOMAIN s.seqs[i].notes : s.seqs[i].notes[j].s < s.seqs[i].notes[j].e
Distinct(s) == \A i, j \in DOMAIN s.seqs : (s.seqs[i].trk = s.seqs[j].trk /\ s.seqs[i].c = s.seqs[j].c /\ s.seqs[i].pr = s.seqs[j].pr) => i = j
InClosingOrder(s) == \A i \in DOMAIN s.seqs : \A j \in 1..(Len(s.seqs[i].notes) - 1) : s.seqs[i].notes[j].e <= s.seqs[i].notes[j + 1].e
(* within a file track nothing sounds across a later onset *)
NoOverlap(s) == \A i, k \in DOMAIN s.seqs : s.seqs[i].trk = s.seqs[k].trk =>
                  \A a \in DOMAIN s.seqs[i].notes, b \in DOMAIN s.seqs[k].notes :
                     s.seqs[i].notes[a].s < s.seqs[k].notes[b].s => s.seqs[i].notes[a].e <= s.seqs[k].notes[b].s
Increasing(s, K) == \A k \in 0..K : Ticks2Time(s.tempo, k) < Ticks2Time(s.tempo, k + 1)
TempoOrdered(s) == \A i \in 1..(Len(s.tempo) - 1) : s.tempo[i].t <= s.tempo[i + 1].t /\ s.tempo[i].q # s.tempo[i + 1].q
==============================================================================
