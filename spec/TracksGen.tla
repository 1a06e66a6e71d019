------------------------------ MODULE TracksGen ------------------------------
(* Every small track and every short list of velocities.                      *)
EXTENDS Tracks, Json
CONSTANTS MaxNotes, Times, Vels, Loud
VARIABLE q
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
Note == {[t |-> t, p |-> 60 + (t % 7), v |-> v, d |-> FALSE] : t \in Times, v \in Loud}
Tracks0 == Lists(Note, MaxNotes)
Questions ==
    {[op |-> "gaps", notes |-> l, drum |-> b] : l \in Tracks0, b \in BOOLEAN}
    \cup {[op |-> "tolerance", notes |-> l, drum |-> FALSE, pc |-> p] : l \in Tracks0, p \in {0, 50, 95}}
    \cup {[op |-> "groups", notes |-> l, drum |-> FALSE, tol |-> x[1], auto |-> x[2], filter |-> f] : l \in Tracks0, x \in {<<0, FALSE>>, <<20, FALSE>>, <<20, TRUE>>}, f \in BOOLEAN}
    \cup {[op |-> "rescale", v |-> v, lo |-> x[1], hi |-> x[2]] : v \in Lists(Vels, 3) \ {<<>>}, x \in {<<32, 127>>, <<0, 127>>, <<10, 20>>}}
    \cup {[op |-> "scale", v |-> v, num |-> x[1], den |-> x[2]] : v \in Lists(Vels, 3) \ {<<>>}, x \in {<<1, 1>>, <<2, 1>>, <<1, 4>>, <<0, 1>>}}
Init == q \in Questions /\ PrintT(ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
(* the groups partition the notes that sound, in order of time; a scale of one changes nothing; rescaling keeps the order *)
Sound ==
    CASE q.op = "groups" /\ Exact(q) ->
            /\ UNION {Range(g.m) : g \in GroupsOf(q)} = Kept(q)
            /\ \A g, h \in GroupsOf(q) : g.k < h.k => \A i \in Range(g.m), j \in Range(h.m) : q.notes[i].t < q.notes[j].t
      [] q.op = "rescale" -> LET r == Rescaled(q.v, q.lo, q.hi) IN
            \A i, j \in DOMAIN r : r[i] \in q.lo..q.hi /\ (q.v[i] <= q.v[j] => r[i] <= r[j])
      [] q.op = "scale" -> q.num = q.den => \A i \in DOMAIN q.v : Scaled(q.v[i], q.num, q.den) = {q.v[i]}
      [] q.op = "tolerance" -> Len(q.notes) > 2 => 100 * G!Gaps(q.notes)[1] <= TolAt(q.notes, q.pc)
      [] OTHER -> TRUE
==============================================================================
