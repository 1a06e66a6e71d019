------------------------------- MODULE Tracks -------------------------------
(* What the graph builder offers about a single track and about velocities   *)
(* (midi_graph_builder.py): gaps between onsets, the tolerance estimated     *)
(* from them, the notes grouped by onset, velocities rescaled and scaled.    *)
(* Onsets in 1/100 s.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
G == INSTANCE Graph WITH U <- 100, Focus <- "tracks"

Heard(e) == IF e.drum THEN <<>> ELSE e.notes               \* a percussion track has no gaps
Diffs(notes) == LET s == G!Starts(notes) IN IF Len(s) < 2 THEN <<>> ELSE [i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]]
(* 100 times the pc-th percentile of the gaps, by linear interpolation *)
TolAt(notes, pc) ==
    LET g == G!Gaps(notes)
        n == Len(g)
        at == pc * (n - 1)
        lo == (at \div 100) + 1
        hi == IF lo < n THEN lo + 1 ELSE n
    IN IF n < 2 THEN 0 ELSE 100 * g[lo] + (at % 100) * (g[hi] - g[lo])

Least(v) == CHOOSE a \in Range(v) : \A b \in Range(v) : a <= b
Most(v) == CHOOSE a \in Range(v) : \A b \in Range(v) : b <= a
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Rescaled(v, lo, hi) ==
    IF Len(v) = 1 THEN <<Clip(G!RoundDiv(v[1] * (hi - lo), 127) + lo, lo, hi)>>
    ELSE [i \in DOMAIN v |-> IF Least(v) = Most(v) THEN lo ELSE Clip(((v[i] - Least(v)) * (hi - lo)) \div (Most(v) - Least(v)) + lo, 0, 127)]
Halfway(x, den) == (2 * x) % (2 * den) = den
Scaled(x, num, den) == {Clip(G!RoundDiv(x * num, den), 0, 127)} \cup (IF Halfway(x * num, den) THEN {Clip(G!RoundDiv(x * num, den) - 1, 0, 127)} ELSE {})

(* groups are lists of positions in the track; keys in 1/100 s *)
Skipped(n) == n.v = 0 \/ n.d
Kept(e) == {i \in DOMAIN e.notes : ~Skipped(e.notes[i])}
KeyOf(e, i) == G!Key(e.notes[i].t, IF e.auto THEN TolAt(Heard(e), 95) ELSE 0)
(* the key lies halfway between two hundredths: which one is not decided by the numbers alone *)
Between(t, tol) == tol # 0 /\ (2 * G!RoundDiv(100 * t, tol) * tol) % 200 = 100
Undecided(e) == LET tol == TolAt(Heard(e), 95) IN e.auto /\ \E i \in DOMAIN e.notes : G!Tie(e.notes[i].t, tol) \/ Between(e.notes[i].t, tol)
Keys(e) == {KeyOf(e, i) : i \in Kept(e)}
Members(e, k) == SetToSortSeq({i \in Kept(e) : KeyOf(e, i) = k}, <)
Exact(e) == e.auto \/ e.tol = 0
GroupsOf(e) == {[k |-> k, m |-> Members(e, k)] : k \in Keys(e)}
Wide(gs) == {g \in gs : Len(g.m) > 1}
LongestOf(gs) == IF gs = {} THEN 0 ELSE Most(SetToSeq({Len(g.m) : g \in gs}))
(* a fixed tolerance: groups partition the track, notes struck together are together, notes further apart than it are not *)
Loose(e, out) ==
    LET gs == Range(out.groups)
        all == UNION {Range(g.m) : g \in gs}
    IN /\ \A g \in gs : g.m # <<>> /\ \A i \in 1..(Len(g.m) - 1) : g.m[i] < g.m[i + 1]
       /\ \A g, h \in gs : g # h => Range(g.m) \cap Range(h.m) = {}
       /\ all \subseteq Kept(e) /\ (~e.filter => all = Kept(e))
       /\ \A i, j \in all : e.notes[i].t = e.notes[j].t => \E g \in gs : {i, j} \subseteq Range(g.m)
       /\ \A g \in gs : \A i, j \in Range(g.m) : e.notes[i].t - e.notes[j].t <= e.tol
       /\ \A i \in Kept(e) : (\E j \in Kept(e) \ {i} : e.notes[j].t = e.notes[i].t) => i \in all
       /\ e.filter => \A g \in gs : Len(g.m) > 1
       /\ ~e.filter => out.longest = LongestOf(gs)

TStart(t) == 0
TStep(s, e) == [st |-> 0, res |-> "see Judge"]
TJudge(s, e, r) ==
    CASE e.x.out # "ok" -> e.op \o " failed"
      [] ~e.x.same -> "the argument was changed"
      [] e.op = "gaps" -> IF e.x.r = Diffs(Heard(e)) THEN "ok" ELSE "gaps between onsets"
      [] e.op = "tolerance" -> IF e.x.r = <<TolAt(Heard(e), e.pc)>> THEN "ok" ELSE "tolerance"
      [] e.op = "rescale" -> IF e.x.r = Rescaled(e.v, e.lo, e.hi) THEN "ok" ELSE "rescaled velocities"
      [] e.op = "scale" -> IF Len(e.x.r) = Len(e.v) /\ \A i \in DOMAIN e.v : e.x.r[i] \in Scaled(e.v[i], e.num, e.den) THEN "ok" ELSE "scaled velocities"
      [] e.op = "groups" /\ Exact(e) ->
            IF Undecided(e) THEN "ok"
            ELSE LET gs == GroupsOf(e) IN
                 IF Range(e.x.groups) # (IF e.filter THEN Wide(gs) ELSE gs) THEN "groups of notes"
                 ELSE IF Len(e.x.groups) # Cardinality(Range(e.x.groups)) THEN "a group twice"
                 ELSE IF e.x.longest # LongestOf(gs) THEN "size of the largest group" ELSE "ok"
      [] e.op = "groups" -> IF Loose(e, e.x) THEN "ok" ELSE "groups by a fixed tolerance"
==============================================================================
