--------------------------- MODULE NoteMachine ---------------------------
(* Histories of one note (C20, C22, C23) and relations of notes (C21).    *)
EXTENDS Note
(* an untouched machine holds no note *)
R(s, x) == [st |-> x.n, res |-> [ok |-> x.ok, n |-> x.n]]
Freq4 == <<440000, 466164, 493883, 523251, 554365, 587330, 622254, 659255, 698456, 739989, 783991, 830609>>
Names == <<"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B">>
RECURSIVE Dbl(_, _)
(* milli-hertz of pitch p from the octave above A4, scaled by doubling or halving *)
Dbl(f, k) == IF k = 0 THEN f ELSE IF k > 0 THEN Dbl(2 * f, k - 1) ELSE Dbl(f \div 2, k + 1)
FreqTable(p) == LET d == p - 69 IN Dbl(Freq4[(d % 12) + 1], d \div 12)
(* rounding of the recorded value and of the table, amplified by doubling *)
FreqTol(p) == MaxI(2, Dbl(2, MaxI(0, (p - 69) \div 12)))
AbsI(x) == IF x < 0 THEN -x ELSE x

NStep(s, e) ==
    CASE e.op = "new" -> IF Valid(e.a) THEN R(s, Ok(Made(e.a))) ELSE [st |-> s, res |-> [ok |-> 0, n |-> s]]
      [] e.op = "start" -> R(s, SetStart(s, e.t))
      [] e.op = "end" -> R(s, SetEnd(s, e.t))
      [] e.op = "pitch" -> R(s, SetPitch(s, e.t))
      [] e.op = "program" -> R(s, SetProgram(s, e.t))
      [] e.op = "qs" -> R(s, SetQS(s, e.t))
      [] e.op = "qe" -> R(s, SetQE(s, e.t))
      [] e.op = "shift" -> R(s, Ok(Shift(s, e.t)))
      [] e.op = "stretch" -> R(s, Ok(Stretch(s, e.num, e.den)))
      [] e.op = "quantize" -> R(s, Ok(Quantize(s, e.sps, e.a4)))        \* in place
      [] e.op = "quantized" -> [st |-> s, res |-> [ok |-> 1, n |-> Quantize(s, e.sps, e.a4)]]   \* a copy
      \* a copy, with other grid steps if some are given (-1: none)
      [] e.op = "copy" -> [st |-> s, res |-> [ok |-> 1, n |-> IF "qs" \notin DOMAIN e THEN s
              ELSE [s EXCEPT !.qs = IF e.qs >= 0 THEN e.qs ELSE @, !.qe = IF e.qe >= 0 THEN e.qe ELSE @]]]
      [] e.op = "json" -> [st |-> s, res |-> [ok |-> 1, n |-> s]]
      [] e.op = "query" -> [st |-> s, res |-> [ok |-> 1, dur |-> s.e - s.s, isq |-> B(IsQuantized(s)),
                                   samples |-> IF IsQuantized(s) THEN s.qe - s.qs + 1 ELSE -1]]
      [] e.op = "cmp" -> [st |-> s, res |-> [ok |-> 1, lt |-> B(Lt(e.a, e.b)), gt |-> B(Lt(e.b, e.a)),
                                   le |-> B(Le(e.a, e.b)), ge |-> B(Le(e.b, e.a)),
                                   eq |-> B(e.a = e.b), ov |-> B(Overlap(e.a, e.b)), vo |-> B(Overlap(e.b, e.a))]]
      \* the same, with the second note moved by less than a nanosecond
      [] e.op = "near" -> [st |-> s, res |-> [ok |-> 1, lt |-> B(Lt(e.a, e.b)), gt |-> B(Lt(e.b, e.a)), eq |-> B(e.a = e.b)]]
      [] e.op = "sort" -> [st |-> s, res |-> [ok |-> 1]]
      [] e.op = "steps" -> [st |-> s, res |-> [ok |-> 1, back |-> e.k, floor |-> e.k]]
      [] e.op = "grid" -> [st |-> s, res |-> [ok |-> 1, f |-> FloorStep(e.t, e.sps, e.a4), c |-> CeilStep(e.t, e.sps, e.a4)]]
      [] e.op = "freq" -> [st |-> s, res |-> [ok |-> 1]]
      \* a note made by the name of its pitch holds what it is given
      [] e.op = "called" -> IF e.a.p <= 127 THEN R(s, Ok(Made(e.a))) ELSE [st |-> s, res |-> [ok |-> 0, n |-> s]]
      [] e.op = "name" -> [st |-> s, res |-> [ok |-> 1, p |-> 12 * (e.oct + 1) + e.k - 1]]

(* what is recorded after each event: the answer and the note itself afterwards *)
NExpect(s, e, r) == [res |-> r.res, note |-> r.st]
Sound(n) == n = NoNote \/ (n.s < n.e /\ n.p \in 0..127 /\ n.v \in 0..127 /\ n.pr \in 0..255 /\ n.ins \in 0..127)
NJudge(s, e, r) ==
    CASE e.op = "freq" -> IF e.x.res.ok = 1 /\ AbsI(e.x.res.f - FreqTable(e.p)) <= FreqTol(e.p)
                          THEN "ok" ELSE "frequency doubles every octave, A4 = 440 Hz"
      [] e.op = "sort" -> IF e.x.res.ok = 1 /\ SortedNotes(e.x.res.l) /\ SameBag(e.x.res.l, e.l)
                          THEN "ok" ELSE "sorting orders by start, end, pitch"
      [] e.x.note # r.st -> "note after " \o e.op
      [] e.x.res # r.res -> "answer of " \o e.op
      [] OTHER -> "ok"
NStart(t) == NoNote
===========================================================================
