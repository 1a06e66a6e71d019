----------------------------- MODULE ReadingGen -----------------------------
(* Files of bounded size: every order of the chosen events.  MaxTick bounds   *)
(* the ticks, Keys are channel/pitch pairs, Kinds the events offered.         *)
EXTENDS GenBase, Reading
CONSTANTS MaxTick, Kinds, MaxTracks, ChannelSet, PitchSet
Ts(s) == {t \in {s.now, s.now + 1} : t <= MaxTick}
Marks(s) == Len(s.wait) + FoldLeft(LAMBDA a, q : a + Len(q.cc) + Len(q.pb) + Len(q.notes), 0, s.seqs)
GCmds(s) ==
    (IF s.trk > MaxTracks THEN {} ELSE UNION {
       (IF "on" \in Kinds THEN {[op |-> "on", t |-> t, c |-> c, p |-> p, v |-> 40 + Len(s.open) + 8 * NoteCount(s)] : c \in ChannelSet, p \in PitchSet} ELSE {})
       \cup (IF "off" \in Kinds THEN {[op |-> "off", t |-> t, c |-> c, p |-> p, w |-> (c + p + t) % 2] : c \in ChannelSet, p \in PitchSet} ELSE {})
       \cup (IF "prog" \in Kinds THEN {[op |-> "prog", t |-> t, c |-> c, p |-> p] : c \in ChannelSet, p \in {5, 6}} ELSE {})
       \cup (IF "cc" \in Kinds THEN {[op |-> "cc", t |-> t, c |-> c, n |-> 7, v |-> Marks(s)] : c \in ChannelSet} ELSE {})
       \cup (IF "pb" \in Kinds THEN {[op |-> "pb", t |-> t, c |-> c, a |-> Marks(s) - 8192] : c \in ChannelSet} ELSE {})
       \cup (IF "name" \in Kinds THEN {[op |-> "name", t |-> t, n |-> n] : n \in {"Left", "Right"}} ELSE {})
       \cup (IF "tempo" \in Kinds THEN {[op |-> "tempo", t |-> t, q |-> q] : q \in {250, 500, 700}} ELSE {})
       \cup (IF "ts" \in Kinds THEN {[op |-> "ts", t |-> t, a |-> a, b |-> 8] : a \in {3, 5}} ELSE {})
       \cup (IF "ks" \in Kinds THEN {[op |-> "ks", t |-> t, a |-> 1, b |-> b] : b \in {2, 9}} ELSE {})
       \cup (IF "end" \in Kinds THEN {[op |-> "end", t |-> t]} ELSE {})
       : t \in Ts(s)})
    \cup (IF s.trk > MaxTracks THEN {} ELSE {[op |-> "read", t |-> t, how |-> "bytes"] : t \in {s.now, s.now + 1}})
    \cup (IF s.trk > MaxTracks \/ "rewrite" \notin Kinds \/ \A i \in DOMAIN EndTrack(s, s.now + 1).seqs : EndTrack(s, s.now + 1).seqs[i].notes = <<>> THEN {}
          ELSE {[op |-> "rewrite", t |-> s.now + 1, n |-> 1 + (s.now % 2)]})
    \cup (IF "tick" \in Kinds THEN {[op |-> "tick", t |-> t] : t \in {0, s.now, s.now + 1, MaxTick + 3}}
          \cup {[op |-> "near", t |-> t, f |-> f] : t \in {0, s.now, MaxTick + 3}, f \in {10, 45, 55, 90}} ELSE {})
Laws == OpenTogether(st) /\ Sounding(st) /\ Distinct(st) /\ InClosingOrder(st) /\ NoOverlap(st) /\ Increasing(st, MaxTick + 2) /\ TempoOrdered(st)
==============================================================================
