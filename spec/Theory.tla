------------------------------- MODULE Theory -------------------------------
(* Scales, chords and intervals (midi/midi_scales.py).  Everything is        *)
(* derived from a few rules: the church modes are the rotations of the major *)
(* scale's steps, triads stack two thirds of the scale, the steps of a chord *)
(* are the differences of its intervals, intervals are counted in semitones. *)
(* The machine answers questions; the caller may spoil any answer it was     *)
(* given, which must not change later ones (the state is constant).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Names == <<"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B">>
Lower == <<"c", "c#", "d", "d#", "e", "f", "f#", "g", "g#", "a", "a#", "b">>
Major == <<2, 2, 1, 2, 2, 2, 1>>
Rot(q, k) == SubSeq(q, k + 1, Len(q)) \o SubSeq(q, 1, k)
Steps == [major |-> Major, dorian |-> Rot(Major, 1), phrygian |-> Rot(Major, 2), lydian |-> Rot(Major, 3), mixolydian |-> Rot(Major, 4),
          aeolian |-> Rot(Major, 5), minor |-> Rot(Major, 5), locrian |-> Rot(Major, 6),
          harmonic_minor |-> <<2, 1, 2, 2, 1, 3, 1>>, melodic_minor |-> <<2, 1, 2, 2, 2, 2, 1>>]
Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Offsets(s) == [i \in 1..7 |-> Sum(SubSeq(Steps[s], 1, i - 1))]
Note(pc) == Names[(pc % 12) + 1]
Scale(r, s) == [i \in 1..7 |-> Note(r + Offsets(s)[i])]
Third(s, i) == LET o == Offsets(s) up(k) == o[((k - 1) % 7) + 1] + 12 * ((k - 1) \div 7) IN <<up(i), up(i + 2), up(i + 4)>>
Quality(t) == CASE <<t[2] - t[1], t[3] - t[1]>> = <<4, 7>> -> "maj" [] <<t[2] - t[1], t[3] - t[1]>> = <<3, 7>> -> "min"
                [] <<t[2] - t[1], t[3] - t[1]>> = <<3, 6>> -> "dim" [] <<t[2] - t[1], t[3] - t[1]>> = <<4, 8>> -> "aug"
Triad(r, s, i) == LET t == Third(s, i) IN <<Note(r + t[1]), Note(r + t[2]), Note(r + t[3])>>

-----------------------------------------------------------------------------
(* Intervals a chord can be made of *)
IV == [P1 |-> 0, m2 |-> 1, M2 |-> 2, m3 |-> 3, M3 |-> 4, P4 |-> 5, A4 |-> 6, d5 |-> 6, Tritone |-> 6, P5 |-> 7, A5 |-> 8, m6 |-> 8, M6 |-> 9, d7 |-> 9,
       m7 |-> 10, M7 |-> 11, P8 |-> 12, m9 |-> 13, M9 |-> 14, m10 |-> 15, M10 |-> 16, P11 |-> 17, A11 |-> 18, m13 |-> 20, M13 |-> 21]
Chord == ("M" :> <<0, 4, 7>>) @@ ("m" :> <<0, 3, 7>>) @@ ("7" :> <<0, 4, 7, 10>>) @@ ("M7" :> <<0, 4, 7, 11>>) @@ ("m7" :> <<0, 3, 7, 10>>)
      @@ ("m7b5" :> <<0, 3, 6, 10>>) @@ ("dim7" :> <<0, 3, 6, 9>>) @@ ("aug7" :> <<0, 4, 8, 10>>) @@ ("6" :> <<0, 4, 7, 9>>) @@ ("m6" :> <<0, 3, 7, 9>>)
      @@ ("9" :> <<0, 4, 7, 10, 14>>) @@ ("M9" :> <<0, 4, 7, 11, 14>>) @@ ("m9" :> <<0, 3, 7, 10, 14>>)
      @@ ("11" :> <<0, 4, 7, 10, 14, 17>>) @@ ("M11" :> <<0, 4, 7, 11, 14, 17>>) @@ ("m11" :> <<0, 3, 7, 10, 14, 17>>)
      @@ ("13" :> <<0, 4, 7, 10, 14, 17, 21>>) @@ ("M13" :> <<0, 4, 7, 11, 14, 17, 21>>) @@ ("m13" :> <<0, 3, 7, 10, 14, 17, 21>>)
      @@ ("add9" :> <<0, 4, 7, 14>>) @@ ("sus2" :> <<0, 2, 7>>) @@ ("sus4" :> <<0, 5, 7>>) @@ ("7sus4" :> <<0, 5, 7, 10>>)
Chords == DOMAIN Chord
Diffs(c) == [i \in 1..(Len(c) - 1) |-> c[i + 1] - c[i]]
(* by their named intervals, thirteenths are played without the eleventh *)
Thirteenths == {"13", "M13", "m13"}
Voiced(c) == IF c \in Thirteenths THEN SelectSeq(Chord[c], LAMBDA v : v # 17) ELSE Chord[c]
WithSteps(d) == {c \in Chords : Diffs(Chord[c]) = d}

-----------------------------------------------------------------------------
Roots == {<<k, i>> : k \in {"int", "name", "lower"}, i \in 0..11}
BadRoots == {<<"int", 12>>, <<"int", -1>>, <<"text", "H">>, <<"text", "">>}
RootOk(r) == r[1] # "text" /\ r[2] \in 0..11
ScaleOk(e) == e.scale \in DOMAIN Steps
Fail == [ok |-> 0]
Say(v) == [ok |-> 1, v |-> v]
Answer(e) ==
    CASE e.op \in {"notes", "triads", "named"} /\ ~(RootOk(e.root) /\ ScaleOk(e)) -> Fail
      [] e.op = "notes" -> Say(Scale(e.root[2], e.scale))
      [] e.op = "triads" -> Say([i \in 1..7 |-> LET t == Triad(e.root[2], e.scale, i) IN t[1] \o t[2] \o t[3]])
      [] e.op = "named" -> Say([i \in 1..7 |-> <<Triad(e.root[2], e.scale, i), Quality(Third(e.scale, i))>>])
      [] e.op = "pattern" -> IF ScaleOk(e) THEN Say(<<Offsets(e.scale), Offsets(e.scale)>>) ELSE Fail       \* both tables
      [] e.op = "onscale" -> IF e.chord \in Chords THEN Say([i \in DOMAIN Voiced(e.chord) |-> Note(e.root[2] + Voiced(e.chord)[i])]) ELSE Fail
      [] e.op = "pitches" -> IF ~RootOk(e.root) \/ \E i \in DOMAIN e.iv : e.iv[i] \notin DOMAIN IV THEN Fail
                             ELSE Say([i \in DOMAIN e.iv |-> (e.root[2] + IV[e.iv[i]]) % 12])
      [] e.op = "steps" -> IF e.chord \in Chords THEN Say(Diffs(Chord[e.chord])) ELSE Fail
      [] e.op = "mapped" -> Say(Voiced(e.chord))
      [] e.op \in {"name", "name2"} -> Say(IF WithSteps(e.d) = {} THEN "None" ELSE CHOOSE c \in WithSteps(e.d) : TRUE)
      [] e.op = "badname" -> Fail
      [] e.op = "roundtrip" -> Say(e.chord)
      [] e.op = "split" -> IF e.k < 0 THEN Fail ELSE Say(<<e.k % 12, e.k \div 12>>)
      [] e.op = "join" -> IF e.k \notin 0..11 \/ e.o < 0 THEN Fail ELSE Say(12 * e.o + e.k)
      [] e.op = "semitones" -> IF e.k \in 0..22 THEN Say(e.k) ELSE Fail
      [] e.op = "add" -> IF e.a + e.b \in 0..22 THEN Say(e.a + e.b) ELSE Fail
      [] e.op = "bases" -> Say(e.k)                                        \* their sum
      [] e.op = "inverse" -> Say(IF e.k = 12 THEN 0 ELSE 12 - (e.k % 12))
      [] e.op = "note" -> Say(Note(e.k) \o ToString(e.k \div 12))
      [] e.op = "value" -> Say(IV[e.iv])

-----------------------------------------------------------------------------
TStart(t) == 0
TStep(s, e) == [st |-> 0, res |-> IF e.op = "spoil" THEN Say(0) ELSE Answer(e)]
TJudge(s, e, r) ==
    IF e.op = "spoil" \/ e.x = r.res THEN "ok"
    ELSE "answer to " \o e.op
=============================================================================
