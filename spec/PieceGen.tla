------------------------------ MODULE PieceGen ------------------------------
EXTENDS GenBase, Piece
CONSTANTS Tracks, MaxNotes, WithQuant
D(s, e, p) == [s |-> s, e |-> e, p |-> p, v |-> 100, pr |-> 0, ins |-> 1, qs |-> -1, qe |-> -1, vo |-> 0, nu |-> 4, de |-> 4, dr |-> 0]
N1 == D(0, 8000, 60)
N2 == D(4000, 8000, 64)
Piano == <<1, "Piano", 0>>
Lead == <<2, "Lead", 0>>
Sq(ins, res, l) == [ins |-> ins, res |-> res, l |-> l]
Lists == {<<Sq(Piano, 220, <<N2>>)>>, <<Sq(Piano, 220, <<N2>>), Sq(Piano, 220, <<N1>>)>>, <<Sq(Lead, 220, <<>>), Sq(Piano, 220, <<N1>>)>>,
          <<Sq(Piano, 220, <<N2>>), Sq(<<1, "Lead", 0>>, 220, <<N1>>)>>, <<Sq(Piano, 220, <<N2>>), Sq(Piano, 480, <<N1>>)>>}
Total(s) == Len(Cat(s.tr, Asc(DOMAIN s.tr)))
PCmds(s) ==
    (IF WithQuant
     THEN [op : {"isq"}] \cup [op : {"quantize"}, t : {t \in DOMAIN s.tr : \A i \in DOMAIN s.tr[t].notes : ~IsQuantized(s.tr[t].notes[i])}, sps : {4}, a4 : {2}]
     ELSE [op : {"make"}, l : Lists, res : {220, 480}] \cup [op : {"badtrack"}, how : 1..12]
          \cup [op : {"get"}, t : Tracks, ins : {Lead}] \cup [op : {"idx", "hold"}, t : Tracks]
          \cup [op : {"put"}, how : {"item", "set"}, t : Tracks, ins : {Lead}, res : {480}, l : {<<>>, <<N2>>}]
          \cup [op : {"putlist"}, how : {"item", "set"}, t : Tracks, l : {<<>>, <<N2>>}]
          \cup [op : {"viahold"}, n : IF Total(s) < MaxNotes THEN {N1} ELSE {}])
    \cup [op : {"create"}, t : Tracks, ins : {Piano}]
    \cup [op : {"note"}, t : Tracks, n : IF Total(s) < MaxNotes THEN {N1, N2} ELSE {}]
Kept == \A e \in PCmds(st) : Untouched(st, e)
Rejected == \A e \in PCmds(st) : LET r == PStep(st, e) IN r.res.ok = 0 => r.st = st
============================================================================
