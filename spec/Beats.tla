------------------------------- MODULE Beats --------------------------------
(* Where the beats and bars of a file that was read lie                      *)
(* (custom_pretty_midi.py get_beats, get_downbeats, get_end_time).           *)
(* In ticks a beat has the same length whatever the tempo, so the beats are  *)
(* laid out in ticks and carried to seconds by the tempo map of Reading.     *)
(*                                                                           *)
(* s.r: what was understood of the file (Reading), s.far: its last lyric.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
R == INSTANCE Reading WITH Focus <- "all"

Later(a, b) == IF a > b THEN a ELSE b
Most(S) == CHOOSE x \in S : \A y \in S : y <= x
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Compound(g) == g.a % 3 = 0 /\ g.a # 3
BeatLen(res, g) == ((4 * res) \div g.b) * (IF Compound(g) THEN 3 ELSE 1)
PerBar(g) == IF Compound(g) THEN g.a \div 3 ELSE g.a
Common == [t |-> 0, a |-> 4, b |-> 4]
(* of signatures at one place the last one governs *)
At(ts, k) == LET S == {i \in DOMAIN ts : ts[i].t <= k} IN IF S = {} THEN Common ELSE ts[CHOOSE i \in S : \A j \in S : ts[j].t < ts[i].t \/ (ts[j].t = ts[i].t /\ j <= i)]
After(ts, k) == {ts[i].t : i \in {i \in DOMAIN ts : ts[i].t > k}}
End(r) == Most({0, 0} \cup {r.tempo[i].t : i \in DOMAIN r.tempo} \cup {r.ts[i].t : i \in DOMAIN r.ts} \cup {r.ks[i].t : i \in DOMAIN r.ks}
               \cup UNION {{r.seqs[i].notes[j].e : j \in DOMAIN r.seqs[i].notes} \cup {r.seqs[i].cc[j].t : j \in DOMAIN r.seqs[i].cc}
                           \cup {r.seqs[i].pb[j].t : j \in DOMAIN r.seqs[i].pb} : i \in DOMAIN r.seqs})
Ending(s) == Later(End(s.r), s.far)
NextBeat(r, k) == Least({k + BeatLen(r.res, At(r.ts, k))} \cup After(r.ts, k))
BeatsTo(r, from, to) == LET RECURSIVE F(_) F(k) == IF k >= to THEN <<>> ELSE <<k>> \o F(NextBeat(r, k)) IN F(from)
(* a bar starts where asked to start, at each change of signature, and after as many beats as a bar has *)
Bars(r, B) ==
    LET changes == {r.ts[i].t : i \in DOMAIN r.ts}
        RECURSIVE F(_, _)
        F(i, n) == IF i > Len(B) THEN <<>>
                   ELSE IF i = 1 \/ B[i] \in changes \/ n = PerBar(At(r.ts, B[i])) THEN <<B[i]>> \o F(i + 1, 1) ELSE F(i + 1, n + 1)
    IN F(1, 0)
InTime(r, B) == [i \in DOMAIN B |-> R!Ticks2Time(r.tempo, B[i])]
(* seconds are not exact: a beat exactly at the end may count *)
Layouts(s, from) == LET e == Ending(s) IN {BeatsTo(s.r, from, e), BeatsTo(s.r, from, e + 1)}
(* before a first signature that is not in quarters nothing says how long a beat is *)
Vague(r, from) == r.ts # <<>> /\ (\A i \in DOMAIN r.ts : r.ts[i].t > from) /\ LET f == r.ts[1] IN f.b # 4 \/ Compound(f)

Asked(s, e) == [s EXCEPT !.r = R!EndTrack(@, e.t)]
BStart0 == [r |-> R!GStart0, far |-> 0]
BStep(s, e) ==
    CASE e.op = "file" -> [st |-> [r |-> R!NewFile(e.res), far |-> 0], res |-> <<>>]
      [] e.op = "beats" -> [st |-> s, res |-> LET q == Asked(s, e) IN {InTime(q.r, B) : B \in Layouts(q, e.start)}]
      [] e.op = "bars" -> [st |-> s, res |-> LET q == Asked(s, e) IN {InTime(q.r, Bars(q.r, B)) : B \in Layouts(q, e.start)}]
      [] e.op = "ending" -> [st |-> s, res |-> LET q == Asked(s, e) IN {<<R!Ticks2Time(q.r.tempo, Ending(q))>>}]
      [] OTHER -> [st |-> [r |-> R!GStep(s.r, e).st, far |-> IF e.op = "other" /\ e.k = "lyrics" /\ s.r.trk = 1 THEN e.t ELSE s.far], res |-> <<>>]
BJudge(s, e, r) ==
    CASE e.op \notin {"beats", "bars", "ending"} -> "ok"
      [] e.op # "ending" /\ Vague(s.r, e.start) -> "ok"
      [] e.x \in r.res -> "ok"
      [] OTHER -> "answer to " \o e.op
BStart(t) == BStart0
=============================================================================
