-------------------------------- MODULE Rolls --------------------------------
(* Encodings (utils.py).  A piece is a list of instruments                   *)
(*    [notes: <<[s, e, p]>>, bends: <<t>>, ccs: <<t>>], times in 1/64 s;      *)
(* frame k of a roll at fs frames a second starts at k/fs.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Frame(t, fs) == (t * fs) \div 64
Range2(q) == {q[i] : i \in DOMAIN q}
MaxOf(S) == CHOOSE m \in S : \A z \in S : z <= m
EndOf(I) == MaxOf({0} \cup {I.notes[i].e : i \in DOMAIN I.notes} \cup Range2(I.bends) \cup Range2(I.ccs))
Width(P, fs) == MaxOf({Frame(EndOf(P[i]), fs) + 1 : i \in DOMAIN P})
Onsets(P, fs) == UNION {{<<P[i].notes[j].p, Frame(P[i].notes[j].s, fs)>> : j \in DOMAIN P[i].notes} : i \in DOMAIN P}
(* one-hot: the set of <<row, column>> that are 1 *)
Hot(ix) == {<<i - 1, ix[i]>> : i \in DOMAIN ix}
Fits(ix, d) == \A i \in DOMAIN ix : ix[i] < d
Ones(x) == {<<x[i][1], x[i][2]>> : i \in DOMAIN x}

RStart(t) == 0
RStep(s, e) == [st |-> 0, res |-> "see Judge"]
RJudge(s, e, r) ==
    CASE e.op = "onehot" /\ ~Fits(e.ix, e.depth) -> IF e.x.out = "ok" THEN "an index without a column was accepted" ELSE "ok"
      [] e.x.out # "ok" -> "the encoding failed"
      [] e.x.other # 0 -> "an entry that is neither 0 nor 1"
      [] ~e.x.same -> "the argument was changed"
      [] e.op = "onehot" ->
            IF e.x.shape # <<Len(e.ix), e.depth>> THEN "shape of the encoding"
            ELSE IF Ones(e.x.ones) # Hot(e.ix) THEN "one-hot rows" ELSE IF e.x.dtype # e.dtype THEN "type of the encoding" ELSE "ok"
      [] e.op = "roll" ->
            IF e.x.shape # <<128, Width(e.piece, e.fs)>> THEN "shape of the roll"
            ELSE IF Ones(e.x.ones) # Onsets(e.piece, e.fs) THEN "onsets" ELSE "ok"
=============================================================================
