----------------------------- MODULE Signatures -----------------------------
(* Time, key and tempo signatures of pieces (midi/midi_sequences.py).  A     *)
(* signature is [t: time in 1/64 s, a, b: its two values]; a piece keeps one *)
(* list per kind ("ts", "ks", "te"), ordered by time.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Default == [ts |-> <<[t |-> 0, a |-> 4, b |-> 4]>>, ks |-> <<[t |-> 0, a |-> 0, b |-> 0]>>, te |-> <<[t |-> 0, a |-> 120, b |-> 480]>>]
After(l, t) == Cardinality({i \in DOMAIN l : l[i].t <= t})
Add(l, v) == IF l # <<>> /\ l[1].t = v.t THEN <<v>> \o Tail(l)
             ELSE LET k == After(l, v.t) IN SubSeq(l, 1, k) \o <<v>> \o SubSeq(l, k + 1, Len(l))
InForce(l, t) == l[After(l, t)]
(* before the first one what is assumed of a piece that says nothing *)
Answer(kind, l, t) == IF After(l, t) = 0 THEN Default[kind][1] ELSE InForce(l, t)
UpTo(l, t) == SelectSeq(l, LAMBDA v : t = -1 \/ v.t <= t)

Ans(s, r) == [st |-> s, res |-> r]
GStep(s, e) ==
    CASE e.op = "piece" -> Ans([s EXCEPT ![e.k] = e.l], <<>>)
      [] e.op = "add" -> Ans([s EXCEPT ![e.k][e.kind] = Add(@, e.v)], <<>>)
      [] e.op = "ask" -> LET v == Answer(e.kind, s[e.k][e.kind], e.t) IN Ans(s, <<v.a, v.b>>)
      [] e.op = "initial" -> Ans(s, <<IF s[e.k].te = <<>> THEN Default.te[1].a ELSE s[e.k].te[1].a>>)
      [] e.op = "ofseq" -> Ans(s, <<IF e.l = <<>> THEN Default.te[1].a ELSE e.l[1].a>>)  \* the initial tempo of a sequence of its own
      [] e.op = "loose" -> LET d == IF e.kind = "te" THEN Tail(e.l) ELSE e.l      \* a piece made of signatures in no order
                           IN Ans(s, UpTo(IF e.sort THEN SortSeq(d, LAMBDA v, w : v.t < w.t) ELSE d, e.t))
      [] e.op = "upto" -> Ans(s, IF e.kind = "te" THEN UpTo(Tail(s[e.k].te), e.t) ELSE UpTo(s[e.k][e.kind], e.t))
GExpect(s, e, r) == [res |-> r.res, all |-> r.st]
GJudge(s, e, r) ==
    CASE e.x.all # r.st -> "signature lists after " \o e.op
      [] e.x.res # r.res -> "answer to " \o e.op
      [] OTHER -> "ok"
GStart0 == <<Default, Default>>
GStart(t) == GStart0

Ordered(l) == \A i \in 1..(Len(l) - 1) : l[i].t <= l[i + 1].t
AllOrdered(s) == \A k \in DOMAIN s : Ordered(s[k].ts) /\ Ordered(s[k].ks) /\ Ordered(s[k].te)
(* what was added last at a time is in force there, and nothing else changes *)
LastWins(l, v) == InForce(Add(l, v), v.t) = v
ElseKept(l, v, times) == \A t \in times : (t < v.t /\ After(l, t) > 0 /\ ~(l[1].t = v.t)) => InForce(Add(l, v), t) = InForce(l, t)
==============================================================================
