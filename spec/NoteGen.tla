------------------------------ MODULE NoteGen ------------------------------
EXTENDS GenBase, NoteMachine
CONSTANTS Which, Times
TimesQuick == {-125, 0, 1000, 4000, 4125, 8000, 8125, 12000}
TimesDeep == {0, 125, 500, 1000, 1500, 2000, 2625, 3000, 4000, 4125, 5500, 8000, 8125, 11875, 12000}
Dflt == [s |-> 0, e |-> 8000, p |-> 60, v |-> 100, pr |-> 0, ins |-> 0, qs |-> -1, qe |-> -1, vo |-> 0,
         nu |-> 4, de |-> 4, dr |-> 0]
News == {[Dflt EXCEPT !.s = s, !.e = e] : s, e \in {t \in Times : t >= 0}}
        \cup {[Dflt EXCEPT !.p = p, !.v = v] : p, v \in {-5, -1, 0, 1, 64, 126, 127, 128, 300}}
        \cup {[Dflt EXCEPT !.pr = p, !.ins = v] : p, v \in {-5, -1, 0, 1, 127, 128, 254, 255, 256, 999}}
        \cup {[Dflt EXCEPT !.nu = a, !.de = b] : a \in {-1, 0, 1, 3, 255, 256, 300}, b \in {-4, 0, 1, 2, 3, 4, 6, 8, 12, 64, 128}}
NoteCmds(s) ==
    IF s = NoNote THEN [op : {"new"}, a : IF Which = "valid" THEN News ELSE {[Dflt EXCEPT !.s = x, !.e = y] : x, y \in {t \in Times : t >= 0}}]
    ELSE IF Which = "valid" THEN
         [op : {"start", "end"}, t : Times] \cup [op : {"pitch"}, t : {-1, 0, 5, 127, 128}]
         \cup [op : {"program"}, t : {-1, 0, 127, 128, 255, 256}] \cup [op : {"qs", "qe"}, t : {-1, 0, 3}]
    ELSE IF IsQuantized(s) THEN {[op |-> "query"]}
    ELSE [op : {"quantize", "quantized"}, sps : {1, 2, 3, 4, 8, 10}, a4 : {1, 2, 3, 4}]
CmpNotes == {[Dflt EXCEPT !.s = s, !.e = e, !.p = p] : s \in {0, 4000}, e \in {8000, 8125}, p \in {60, 61}}
            \cup {[Dflt EXCEPT !.v = 1], [Dflt EXCEPT !.pr = 1], [Dflt EXCEPT !.ins = 1], [Dflt EXCEPT !.qs = 1],
                  [Dflt EXCEPT !.qe = 1], [Dflt EXCEPT !.vo = 1], [Dflt EXCEPT !.nu = 3], [Dflt EXCEPT !.de = 8],
                  [Dflt EXCEPT !.dr = 1], [Dflt EXCEPT !.e = 500], [Dflt EXCEPT !.s = 8000, !.e = 9000]}
CmpCmds(s) == [op : {"cmp"}, a : CmpNotes, b : CmpNotes]
GStart0 == NoNote
AlwaysSound == Sound(st) /\ (st = NoNote \/ (st.s >= 0))
QuantizeLaws == (st # NoNote /\ Which = "quant" /\ ~IsQuantized(st)) =>
   \A sps \in {1, 2, 3, 4, 8, 10, 25}, a4 \in 1..4 :
      LET n == Quantize(st, sps, a4) IN
        /\ 0 <= n.qs /\ n.qs < n.qe /\ n.s < n.e /\ n.s >= 0
        /\ IsQuantized(n) /\ n.p = st.p /\ n.v = st.v
OrderLaws == \A a, b \in CmpNotes : /\ ~(Lt(a, b) /\ Lt(b, a)) /\ (a = b => ~Lt(a, b))
                                    /\ (Lt(a, b) \/ Lt(b, a) \/ Key(a) = Key(b))
                                    /\ \A c \in CmpNotes : Lt(a, b) /\ Lt(b, c) => Lt(a, c)
============================================================================
