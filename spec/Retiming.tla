------------------------------ MODULE Retiming ------------------------------
(* Moving a piece that was read onto another time line                       *)
(* (custom_pretty_midi.py adjust_times): e.o are places in ticks, e.n the    *)
(* times they move to; between them time runs evenly.  Times in 5 ms (24     *)
(* ticks a quarter, tempos whole multiples of 120 ms), answers in 1/64 of it.*)
(* Where a bar line is known from the beats of Beats.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, SequencesExt
B == INSTANCE Beats

T(s, k) == B!R!Ticks2Time(s.r.tempo, k) \div 120
Abs(x) == IF x < 0 THEN -x ELSE x
(* places may be given out of order and more than once (the first counts), and new times never go back *)
Orderly(e) ==
    LET K == SortSeq(SetToSeq({e.o[i] : i \in DOMAIN e.o}), <)
        At(k) == e.n[CHOOSE i \in DOMAIN e.o : e.o[i] = k /\ \A j \in 1..(i - 1) : e.o[j] # k]
    IN [e EXCEPT !.o = K, !.n = TLCEval([i \in DOMAIN K |-> CHOOSE v \in {At(K[j]) : j \in 1..i} : \A j \in 1..i : At(K[j]) <= v])]
(* the map a: pairs of old time and new time *)
Map(s, e) == [o |-> TLCEval([i \in DOMAIN e.o |-> T(s, e.o[i])]), n |-> e.n]
(* new time as a fraction *)
Moved(a, t) ==
    IF t <= a.o[1] THEN <<a.n[1], 1>>
    ELSE IF t >= Last(a.o) THEN <<Last(a.n), 1>>
    ELSE LET j == CHOOSE j \in 1..(Len(a.o) - 1) : a.o[j] <= t /\ t < a.o[j + 1]
             d == a.o[j + 1] - a.o[j]
         IN <<a.n[j] * d + (t - a.o[j]) * (a.n[j + 1] - a.n[j]), d>>
Hit(x, a, t) == LET f == Moved(a, t) IN Abs(x * f[2] - 64 * f[1]) <= 4 * f[2]
Segments(a) == 1..(Len(a.o) - 1)
AtFirst(a, t) == \A j \in Segments(a) : a.o[j] < t => a.n[j + 1] = a.n[j]
AtLast(a, t) == \A j \in Segments(a) : a.o[j + 1] > t => a.n[j + 1] = a.n[j]
Lasts(a, s, e) == s < e /\ \E j \in Segments(a) : a.o[j] < e /\ a.o[j + 1] > s /\ a.n[j + 1] # a.n[j]
Strict(a) == \A j \in Segments(a) : a.n[j] < a.n[j + 1]

(* notes wholly inside, unless nothing is left of them *)
Staying(s, a, l) == SelectSeq(l, LAMBDA n : T(s, n.s) >= a.o[1] /\ T(s, n.e) <= Last(a.o) /\ Lasts(a, T(s, n.s), T(s, n.e)))
NotesOk(s, a, x, w) ==
    /\ Len(x) = Len(w)
    /\ \A i \in DOMAIN w : x[i][3] = w[i].p /\ x[i][4] = w[i].v /\ Hit(x[i][1], a, T(s, w[i].s)) /\ Hit(x[i][2], a, T(s, w[i].e))
(* of the events up to the beginning the last one, and those before the end *)
Events(s, a, l) ==
    LET f == SelectSeq(l, LAMBDA z : AtFirst(a, T(s, z.t)))
        i == SelectSeq(l, LAMBDA z : ~AtFirst(a, T(s, z.t)) /\ ~AtLast(a, T(s, z.t)))
    IN (IF f = <<>> THEN <<>> ELSE <<Last(f)>>) \o i
EventsOk(s, a, x, l, Same(_, _)) ==
    LET w == Events(s, a, l) IN Len(x) = Len(w) /\ \A i \in DOMAIN w : Hit(x[i][1], a, T(s, w[i].t)) /\ Same(x[i], w[i])

(* the first bar line inside begins the piece's bars: its signature moves there *)
(* seconds are not exact: a beat exactly at the end may count (z = 1) or not *)
BarLines(s, k) == TLCEval(B!Bars(s.r, B!BeatsTo(s.r, 0, B!Ending(s) + k)))
Inside(s, a, far) == SelectSeq(BarLines(s, far), LAMBDA k : T(s, k) >= a.o[1])
(* of signatures at one place the last one governs *)
Governing(l, Same(_, _)) == LET i == SelectSeq([k \in DOMAIN l |-> k], LAMBDA k : k = Len(l) \/ ~Same(l[k], l[k + 1])) IN [k \in DOMAIN i |-> l[i[k]]]
SignaturesOk(s, a, x, far) ==
    LET D == Inside(s, a, far)
        d == IF D = <<>> THEN 0 ELSE T(s, D[1])
        w == Governing(Events(s, a, s.r.ts), LAMBDA p, q : ~Lasts(a, T(s, p.t), T(s, q.t)))
        y == Governing(x, LAMBDA p, q : p[1] = q[1])
        Early(z) == T(s, z.t) <= d \/ ~Lasts(a, d, T(s, z.t))
        before == SelectSeq(w, Early)
        after == SelectSeq(w, LAMBDA z : ~Early(z))
        head == IF before = <<>> THEN B!Common ELSE Last(before)
        all == IF D = <<>> THEN [k \in DOMAIN w |-> [t |-> T(s, w[k].t), g |-> w[k]]]
               ELSE <<[t |-> d, g |-> head]>> \o [k \in DOMAIN after |-> [t |-> T(s, after[k].t), g |-> after[k]]]
    IN Len(y) = Len(all) /\ \A k \in DOMAIN all : Hit(y[k][1], a, all[k].t) /\ y[k][2] = all[k].g.a /\ y[k][3] = all[k].g.b
(* every bar line up to the end lies where it moved *)
BarsOk(s, a, x, end, to) ==
    LET D == SelectSeq(B!Bars(s.r, B!BeatsTo(s.r, 0, to)), LAMBDA k : T(s, k) >= a.o[1] /\ T(s, k) < Last(a.o))
        m == IF Len(x) < Len(D) THEN Len(x) ELSE Len(D)
    IN /\ \A i \in 1..m : Hit(x[i], a, T(s, D[i]))
       /\ \A i \in (m + 1)..Len(D) : LET f == Moved(a, T(s, D[i])) IN (end - 8) * f[2] <= 64 * f[1]
       /\ \A i \in (m + 1)..Len(x) : x[i] >= 64 * Last(a.n) - 8

AgainOk(s, a, x) ==
    LET l == SelectSeq(s.r.seqs, LAMBDA q : Staying(s, a, q.notes) # <<>>)
    IN Len(x) = Len(l) /\ \A i \in DOMAIN l : NotesOk(s, a, x[i], SortSeq(Staying(s, a, l[i].notes), LAMBDA m, n : m.s < n.s \/ (m.s = n.s /\ m.p < n.p)))

(* nothing says how long a beat is before a first signature not in quarters; a bar line at a first place that  *)
(* is not the beginning may or may not count: the seconds of neither are exact                                  *)
Clear(s, a) == ~B!Vague(s.r, 0) /\ (a.o[1] = 0 \/ \A i \in DOMAIN BarLines(s, 1) : T(s, BarLines(s, 1)[i]) # a.o[1])
Asked(s, e) == LET q == [s EXCEPT !.r = B!R!EndTrack(@, e.t)] IN q
TStart0 == [r |-> B!R!GStart0, far |-> 0, ly |-> <<>>]
TStep(s, e) ==
    CASE e.op = "file" -> [st |-> [r |-> B!R!NewFile(e.res), far |-> 0, ly |-> <<>>], res |-> <<>>]
      [] e.op = "retime" -> [st |-> s, res |-> <<>>]
      [] OTHER -> [st |-> [r |-> B!R!GStep(s.r, e).st, far |-> IF e.op = "other" /\ e.k = "lyrics" THEN e.t ELSE s.far,
                           ly |-> IF e.op = "other" /\ e.k = "lyrics" THEN Append(s.ly, [t |-> e.t]) ELSE s.ly], res |-> <<>>]
TJudge(s, e, r) ==
    IF e.op # "retime" THEN "ok"
    ELSE LET q == Asked(s, e)
             f == Orderly(e)
             a == Map(q, f)
             x == e.x
         IN CASE x.failed # "" -> "retiming fails: " \o x.failed
              [] Len(x.insts) # Len(q.r.seqs) -> "instruments"
              [] \E i \in DOMAIN x.insts : ~NotesOk(q, a, x.insts[i].notes, Staying(q, a, q.r.seqs[i].notes)) -> "notes"
              [] \E i \in DOMAIN x.insts : ~EventsOk(q, a, x.insts[i].cc, q.r.seqs[i].cc, LAMBDA p, w : p[2] = w.n /\ p[3] = w.v) -> "controllers"
              [] \E i \in DOMAIN x.insts : ~EventsOk(q, a, x.insts[i].pb, q.r.seqs[i].pb, LAMBDA p, w : p[2] = w.a) -> "bends"
              [] ~EventsOk(q, a, x.ks, q.r.ks, LAMBDA p, w : p[2] = w.a /\ p[3] = w.b) -> "keys"
              [] ~EventsOk(q, a, x.ly, q.ly, LAMBDA p, w : TRUE) -> "lyrics"
              [] Clear(q, a) /\ ~\E z \in 0..1 : SignaturesOk(q, a, x.ts, z) -> "signatures"
              [] Clear(q, a) /\ Strict(a) /\ Inside(q, a, 0) # <<>> /\ ~BarsOk(q, a, x.bars, x.end, Last(f.o)) -> "bars"
              [] Strict(a) /\ ~AgainOk(q, a, x.again) -> "notes written and read again"
              [] OTHER -> "ok"
TStart(t) == TStart0
=============================================================================
