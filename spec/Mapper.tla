------------------------------ MODULE Mapper ------------------------------
(* NodeHashIndexMapper (midi_dataset.py): several mappers, each the list   *)
(* of distinct identities in order of first addition; index = position-1.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Known(l) == {l[i] : i \in DOMAIN l}
Add(l, h) == IF h \in Known(l) THEN l ELSE Append(l, h)
RECURSIVE Merge(_, _)
Merge(l, o) == IF o = <<>> THEN l ELSE Merge(Add(l, o[1]), Tail(o))
IndexOf(l, h) == IF h \in Known(l) THEN <<"val", (CHOOSE i \in DOMAIN l : l[i] = h) - 1>> ELSE <<"KeyError">>
HashAt(l, i) == IF i + 1 \in DOMAIN l THEN <<"val", l[i + 1]>> ELSE <<"KeyError">>

MStep(s, e) ==
    CASE e.op = "add" -> [st |-> [s EXCEPT ![e.m] = Add(@, e.h)], res |-> <<"none">>]
      [] e.op = "merge" -> [st |-> [s EXCEPT ![e.m] = Merge(@, s[e.o])], res |-> <<"none">>]
      [] e.op = "index" -> [st |-> s, res |-> IndexOf(s[e.m], e.h)]
      [] e.op = "hash" -> [st |-> s, res |-> HashAt(s[e.m], e.i)]
(* the observation: for every mapper, the identities at 0,1,2,... and the index each one is given *)
Look(s) == [m \in DOMAIN s |-> [ids |-> s[m], inv |-> [i \in DOMAIN s[m] |-> i - 1]]]
MExpect(s, e, r) == [res |-> r.res, all |-> Look(r.st)]
MJudge(s, e, r) ==
    CASE e.x.res # r.res -> "answer of " \o e.op
      [] e.x.all # Look(r.st) -> "indices consecutive in order of first addition, lookups inverse"
      [] OTHER -> "ok"
MStart(t) == <<<<>>, <<>>, <<>>>>
===========================================================================
