------------------------------- MODULE Views --------------------------------
(* What can be read off a piece: onsets, piano rolls, chroma, pitch-class    *)
(* histograms and transitions, tempo and first-beat estimates, the waveform  *)
(* (custom_pretty_midi.py).  Times in 1/64 s, the tempo is 120.              *)
(*                                                                           *)
(* s: one record per instrument: drum, notes [s, e, p, v], cc [t, n, v].     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, SequencesExt

U == 64
Later(a, b) == IF a > b THEN a ELSE b
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : y <= x
Abs(x) == IF x < 0 THEN -x ELSE x
Total(q, F(_)) == FoldLeft(LAMBDA acc, x : acc + F(x), 0, q)
Flat(s, F(_)) == FoldLeft(LAMBDA acc, i : acc \o F(i), <<>>, s)
EndOf(i) == Most({0} \cup {i.notes[k].e : k \in DOMAIN i.notes} \cup {i.cc[k].t : k \in DOMAIN i.cc})
End(s) == Most({0} \cup {EndOf(s[k]) : k \in DOMAIN s})
Notes(s) == Flat(s, LAMBDA i : i.notes)
Sounding(s) == Flat(s, LAMBDA i : IF i.drum THEN <<>> ELSE i.notes)
Onsets(s) == LET n == Notes(s) IN TLCEval(SortSeq([k \in DOMAIN n |-> n[k].s], <))

(* ---- rolls ---- *)
Col(t, fs) == (t * fs) \div U
Held(row, a, b) == FoldLeft(LAMBDA r, c : IF c > a + 1 /\ c <= b THEN Append(r, Later(r[c - 1], row[c])) ELSE Append(r, row[c]), <<>>, [c \in DOMAIN row |-> c])
Plain(i, fs, p, w) ==
    LET Q == TLCEval([k \in DOMAIN SelectSeq(i.notes, LAMBDA n : n.p = p) |-> LET n == SelectSeq(i.notes, LAMBDA m : m.p = p)[k] IN <<Col(n.s, fs), Col(n.e, fs), n.v>>])
    IN TLCEval([c \in 1..w |-> FoldLeft(LAMBDA acc, n : IF n[1] < c /\ c <= n[2] THEN acc + n[3] ELSE acc, 0, Q)])
(* a sustain pedal keeps the loudest so far from where it goes down until it comes up *)
Pedalled(i, fs, ped, row) ==
    IF ped < 0 THEN row
    ELSE FoldLeft(LAMBDA a, c :
             IF c.n # 64 THEN a
             ELSE IF a.at < 0 THEN IF c.v >= ped THEN [a EXCEPT !.at = Col(c.t, fs)] ELSE a
             ELSE IF c.v >= ped THEN a
             ELSE [row |-> Held(a.row, a.at, Col(c.t, fs)), at |-> -1], [row |-> row, at |-> -1], i.cc).row
Row(i, fs, ped, p, w) == Pedalled(i, fs, ped, Plain(i, fs, p, w))
Played(i) == IF i.drum THEN {} ELSE {i.notes[k].p : k \in DOMAIN i.notes}
Cell(q, c) == IF c \in DOMAIN q THEN q[c] ELSE 0
(* every instrument's roll, rows only for the pitches that are played *)
Widths(s, fs) == TLCEval([k \in DOMAIN s |-> IF s[k].notes = <<>> THEN 0 ELSE Col(EndOf(s[k]), fs)])
Width(W) == Most({0} \cup {W[k] : k \in DOMAIN W})
Roll(s, fs, ped) ==
    LET W == Widths(s, fs)
        R == TLCEval([k \in DOMAIN s |-> [p \in Played(s[k]) |-> Row(s[k], fs, ped, p, W[k])]])
        w == Width(W)
        P == UNION {Played(s[k]) : k \in DOMAIN s}
    IN [w |-> w, rows |-> TLCEval([p \in P |-> [c \in 1..w |-> Total([k \in DOMAIN s |-> IF p \in DOMAIN R[k] THEN Cell(R[k][p], c) ELSE 0], LAMBDA x : x)]])]
(* columns of one's own: each is the mean of what lies between it and the next; the last is empty.  In 1/840. *)
Mean(row, a, b) == LET z == IF a = b THEN a + 1 ELSE b IN IF a >= Len(row) THEN 0 ELSE (840 * Total([c \in 1..(z - a) |-> Cell(row, a + c)], LAMBDA x : x)) \div (z - a)
RollAt(s, fs, ped, K) ==
    LET n == Len(K)
        W == TLCEval([k \in DOMAIN s |-> Later(Col(EndOf(s[k]), fs), K[n])])
        R == TLCEval([k \in DOMAIN s |-> [p \in Played(s[k]) |-> LET r == Row(s[k], fs, ped, p, W[k]) IN [c \in 1..n |-> IF c = n THEN 0 ELSE Mean(r, K[c], K[c + 1])]]])
        P == UNION {Played(s[k]) : k \in DOMAIN s}
    IN [w |-> IF \E k \in DOMAIN s : s[k].notes # <<>> THEN n ELSE 0,
        rows |-> TLCEval([p \in P |-> [c \in 1..n |-> Total([k \in DOMAIN s |-> IF p \in DOMAIN R[k] THEN R[k][p][c] ELSE 0], LAMBDA x : x)]])]
Fold(r) == LET C == {p % 12 : p \in DOMAIN r.rows}
           IN [w |-> r.w, rows |-> TLCEval([a \in C |-> LET Q == SetToSeq({p \in DOMAIN r.rows : p % 12 = a}) IN [c \in 1..r.w |-> Total(Q, LAMBDA p : r.rows[p][c])]])]
(* what is shown: the rows that are not all zero, in order *)
Shown(r) == LET P == {p \in DOMAIN r.rows : \E c \in DOMAIN r.rows[p] : r.rows[p][c] # 0}
            IN [w |-> r.w, rows |-> LET q == SortSeq(SetToSeq(P), <) IN [k \in DOMAIN q |-> <<q[k]>> \o r.rows[q[k]]]]

(* ---- pitch classes ---- *)
Weight(n, dur, vel) == (IF dur THEN n.e - n.s ELSE 1) * (IF vel THEN n.v ELSE 1)
Histogram(s, dur, vel) == LET N == Sounding(s) IN TLCEval([c \in 1..12 |-> Total(SelectSeq(N, LAMBDA n : n.p % 12 = c - 1), LAMBDA n : Weight(n, dur, vel))])
(* a transition: within one instrument, a note that starts near where one ends (within less than th/64 s) *)
Near(i, a, b, th) == LET d == Abs(a.e - b.s) IN d < th
Transitions(s, th) ==
    LET Q == {k \in DOMAIN s : ~s[k].drum /\ Len(s[k].notes) > 1}
        T == UNION {{<<k, x, y>> : x \in DOMAIN s[k].notes, y \in DOMAIN s[k].notes} : k \in Q}
        H == {z \in T : Near(s[z[1]], s[z[1]].notes[z[2]], s[z[1]].notes[z[3]], th)}
    IN TLCEval([c \in 1..144 |-> Cardinality({z \in H : ((s[z[1]].notes[z[2]].p % 12) * 12) + (s[z[1]].notes[z[3]].p % 12) = c - 1})])
(* shares recorded in 1/10000 *)
Shares(x, q) == LET t == Total(q, LAMBDA v : v) IN
    /\ Len(x) = Len(q)
    /\ \A c \in DOMAIN q : IF t = 0 THEN x[c] = 0 ELSE Abs(x[c] * t - q[c] * 10000) <= t

(* ---- tempo: intervals between onsets, gathered into clusters of like length ---- *)
RECURSIVE Doubled(_)
Doubled(d) == IF 10 * d < 128 THEN Doubled(2 * d) ELSE d
Intervals(s) == LET o == Onsets(s)
                    d == SelectSeq([k \in 1..(IF Len(o) = 0 THEN 0 ELSE Len(o) - 1) |-> o[k + 1] - o[k]], LAMBDA z : 10 * z > 32 /\ z < 128)
                IN TLCEval([k \in DOMAIN d |-> Doubled(d[k])])
Off(c, d) == Abs(c.sum - d * c.n)                       \* n times how far d is from the mean
Close(c, d) == 10 * Off(c, d) < 16 * c.n
Nearer(a, b, d) == Off(a, d) * b.n < Off(b, d) * a.n
Clusters(s) ==
    TLCEval(FoldLeft(LAMBDA a, d :
        LET C == {k \in DOMAIN a.q : Close(a.q[k], d)}
            best == {k \in C : \A j \in C : ~Nearer(a.q[j], a.q[k], d)}
            tie == Cardinality(best) > 1 \/ \E k \in DOMAIN a.q : 10 * Off(a.q[k], d) = 16 * a.q[k].n
        IN [vague |-> a.vague \/ tie,
            q |-> IF C = {} THEN Append(a.q, [sum |-> d, n |-> 1])
                  ELSE LET k == Least(best) IN [a.q EXCEPT ![k] = [sum |-> @.sum + d, n |-> @.n + 1]]],
        [q |-> <<>>, vague |-> FALSE], Intervals(s)))
Matches(r, c, t) == Len(r) = 2 /\ Abs(r[1] * c.n - 60 * c.sum) <= c.n /\ Abs(r[2] * t - 10000 * c.n) <= t
Ranked(x) == (\A k \in DOMAIN x : Len(x[k]) = 2) /\ \A k \in 1..(Len(x) - 1) : x[k][2] >= x[k + 1][2]
Tempi(s, x) ==
    LET q == Clusters(s).q t == Total(q, LAMBDA c : c.n) IN
    /\ Len(x) = Len(q) /\ Ranked(x)
    /\ \A k \in DOMAIN q : \E j \in DOMAIN x : Matches(x[j], q[k], t)
    /\ \A j \in DOMAIN x : \E k \in DOMAIN q : Matches(x[j], q[k], t)
Best(s, x) == LET q == Clusters(s).q IN IF q = <<>> THEN x = <<-1>>
              ELSE Len(x) = 1 /\ \E k \in DOMAIN q : Abs(x[1] * q[k].n - 60 * q[k].sum) <= q[k].n /\ \A j \in DOMAIN q : q[j].n <= q[k].n

(* ---- the first beat: the onset whose beats meet the most, loudest notes per beat ----
   (the piece begun ms later; the time 0 always counts as a beat) *)
Distinct(o) == LET K == {k \in DOMAIN o : k = 1 \/ o[k] # o[k - 1]} IN SortSeq(SetToSeq({o[k] : k \in K}), <)
Candidates(s, n) == LET d == Distinct(Onsets(s)) IN SubSeq(d, 1, IF Len(d) < n + 1 THEN Len(d) ELSE n + 1)
BeatsFrom(s, c) == {c + 32 * k : k \in 0..(((End(s) - c + 31) \div 32) - 1)}
Met(s, c, ms) == LET B == BeatsFrom(s, c) IN Total(SelectSeq(Notes(s), LAMBDA n : 125 * n.s + 8 * ms < 200 \/ \E b \in B : Abs(n.s - b) <= 1), LAMBDA n : n.v)
Starts(s, n, ms) ==
    LET C == Candidates(s, n)
        M == TLCEval([k \in DOMAIN C |-> Met(s, C[k], ms)])
        N == TLCEval([k \in DOMAIN C |-> Cardinality(BeatsFrom(s, C[k]))])
    IN {C[k] : k \in {k \in DOMAIN C : (\A j \in DOMAIN C : M[j] * N[k] <= M[k] * N[j]) /\ (\A j \in 1..(k - 1) : M[j] * N[k] < M[k] * N[j])}}

Whole(s) == \A k \in DOMAIN s : \A j \in DOMAIN s[k].notes : s[k].notes[j].s < s[k].notes[j].e
VStart0 == <<>>
VStep(s, e) ==
    LET ok == <<>> IN
    CASE e.op = "inst" -> [st |-> Append(s, [drum |-> e.drum, notes |-> <<>>, cc |-> <<>>]), res |-> ok]
      [] e.op = "note" -> [st |-> [s EXCEPT ![e.i].notes = Append(@, [s |-> e.s, e |-> e.e, p |-> e.p, v |-> e.v])], res |-> ok]
      [] e.op = "cc" -> [st |-> [s EXCEPT ![e.i].cc = Append(@, [t |-> e.t, n |-> e.n, v |-> e.v])], res |-> ok]
      [] e.op = "clean" -> [st |-> [k \in DOMAIN s |-> [s[k] EXCEPT !.notes = SelectSeq(@, LAMBDA n : n.s < n.e)]], res |-> ok]
      [] OTHER -> [st |-> s, res |-> ok]
VJudge(s, e, r) ==
    LET good ==
        CASE e.op \in {"inst", "note", "cc"} -> TRUE
          [] e.op = "clean" -> e.x = [k \in DOMAIN r.st |-> [j \in DOMAIN r.st[k].notes |-> <<r.st[k].notes[j].s, r.st[k].notes[j].e, r.st[k].notes[j].p, r.st[k].notes[j].v>>]]
          [] e.op = "onsets" -> e.x = Onsets(s)
          [] e.op = "roll" -> e.x = Shown(Roll(s, e.fs, e.ped))
          [] e.op = "rollat" -> e.x = Shown(RollAt(s, e.fs, e.ped, e.cols))
          [] e.op = "chroma" -> e.x = Shown(Fold(Roll(s, e.fs, e.ped)))
          [] e.op = "chromaat" -> e.x = Shown(Fold(RollAt(s, e.fs, e.ped, e.cols)))
          [] e.op = "hist" -> IF e.norm /\ e.dur /\ ~Whole(s) THEN TRUE ELSE IF e.norm THEN Shares(e.x, Histogram(s, e.dur, e.vel)) ELSE e.x = Histogram(s, e.dur, e.vel)
          [] e.op = "trans" -> IF e.norm THEN Shares(e.x, Transitions(s, e.th)) ELSE e.x = Transitions(s, e.th)
          [] e.op = "tempi" -> Clusters(s).vague \/ Tempi(s, e.x)
          [] e.op = "tempo" -> Clusters(s).vague \/ Best(s, e.x)
          [] e.op = "first" -> ~Whole(s) \/ (e.by # 0 /\ \E c \in Range(Onsets(s)) : (End(s) - c) % 32 = 0) \/ (IF Notes(s) = <<>> THEN e.x = <<-1>> ELSE Len(e.x) = 1 /\ e.x[1] \in Starts(s, e.n, e.by))
          [] e.op = "wave" -> ~Whole(s) \/ e.x = <<IF s = <<>> THEN 0 ELSE Most({((EndOf(s[k]) + U) * e.fs) \div U : k \in DOMAIN s}), IF Sounding(s) = <<>> THEN 0 ELSE 1000>>
          [] e.op = "end" -> e.x = <<End(s)>>
    IN IF good THEN "ok" ELSE "answer to " \o e.op
VStart(t) == VStart0
=============================================================================
