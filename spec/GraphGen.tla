------------------------------ MODULE GraphGen ------------------------------
(* Pieces grow note by note, are built in either mode and delivered; every   *)
(* build of the bounded model becomes a behaviour to run.                     *)
EXTENDS GenBase, Graph
CONSTANTS Times, Pitches, Vels, MaxNotes, MaxTracks, Kinds, Feats, Filters
Note == {[t |-> t, p |-> p, v |-> v, d |-> FALSE] : t \in Times, p \in Pitches, v \in Vels}
Fresh(drum) == [drum |-> drum, notes |-> <<>>]
TCmds(s) == LET n == Len(s.tracks) IN
       (IF n < MaxTracks THEN {[op |-> "track", drum |-> d] : d \in IF "drum" \in Kinds THEN BOOLEAN ELSE {FALSE}} ELSE {})
  \cup (IF n > 0 /\ FoldLeft(LAMBDA a, k : a + Len(k.notes), 0, s.tracks) < MaxNotes THEN {[op |-> "note", n |-> x] : x \in Note} ELSE {})
BCmds(s) == IF s.tracks = <<>> \/ Last(s.tracks).notes = <<>> \/ \E k \in Range(s.tracks) : Ambiguous(k.notes) THEN {} ELSE
       {[op |-> "build", merged |-> m, vel |-> v, feat |-> f, filter |-> x, tracks |-> s.tracks]
          : m \in IF "merged" \in Kinds THEN BOOLEAN ELSE {FALSE}, v \in IF "vel" \in Kinds THEN {TRUE} ELSE {FALSE}, f \in Feats, x \in Filters}
PCmds(s) == IF s.done THEN {} ELSE TCmds(s) \cup BCmds(s)
PStart == [b |-> GStart0, tracks |-> <<>>, done |-> FALSE]
PStep(s, e) ==
    CASE e.op = "track" -> [st |-> [s EXCEPT !.tracks = Append(@, Fresh(e.drum))], res |-> "ok"]
      [] e.op = "note" -> [st |-> [s EXCEPT !.tracks = Front(@) \o <<[Last(@) EXCEPT !.notes = Append(@, e.n)]>>], res |-> "ok"]
      [] OTHER -> LET r == GStep(s.b, e) IN [st |-> [b |-> r.st, tracks |-> <<>>, done |-> TRUE], res |-> r.res]
PExpect(s, e, r) == "recorded"
(* laws: on the piece under construction *)
Track1(k, feat, filter) == Walks(Groups(k.notes, filter), feat, TRUE, {})
Laws == \A k \in Range(st.tracks), feat \in Feats : ~Ambiguous(k.notes) =>
     /\ k.notes # <<>> => Partitioned(Chord(k.notes), feat)
     /\ \A w \in Track1(k, feat, FALSE) : w # <<>> => Counted(Follow(Empty, {}, w), w)
=============================================================================
