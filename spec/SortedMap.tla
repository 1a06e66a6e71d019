---------------------------- MODULE SortedMap ----------------------------
(* Sorted dictionary (midi/sorted_dict.py) and interval dictionary        *)
(* (midi/sorted_interval_dict.py): a finite map listed in key order.      *)
(* State: the map under test and a second map (a copy taken on the way),  *)
(* each a partial function; operations address the current map, `swap`    *)
(* exchanges the two, so interference between copies is visible.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT Less(_, _)

Empty == [k \in {} |-> 0]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Drop(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
RECURSIVE PutAll(_, _)
PutAll(m, ps) == IF ps = <<>> THEN m ELSE PutAll(Put(m, ps[1][1], ps[1][2]), Tail(ps))

Keys(m) == SetToSortSeq(DOMAIN m, Less)
Vals(m) == LET ks == Keys(m) IN [i \in DOMAIN ks |-> m[ks[i]]]
MinKey(m) == Keys(m)[1]
MaxKey(m) == Keys(m)[Cardinality(DOMAIN m)]

(* ---- actions: each gives the next current map and the answer *)
Ans(m, a) == [m |-> m, res |-> a]
KeyErr(m) == Ans(m, <<"KeyError">>)

SetItem(m, k, v) == Ans(Put(m, k, v), <<"none">>)
DelItem(m, k) == IF k \in DOMAIN m THEN Ans(Drop(m, k), <<"none">>) ELSE KeyErr(m)
GetItem(m, k) == IF k \in DOMAIN m THEN Ans(m, <<"val", m[k]>>) ELSE KeyErr(m)
GetDef(m, k, d) == Ans(m, <<"val", IF k \in DOMAIN m THEN m[k] ELSE d>>)
Pop(m, k) == IF k \in DOMAIN m THEN Ans(Drop(m, k), <<"val", m[k]>>) ELSE KeyErr(m)
PopDef(m, k, d) == IF k \in DOMAIN m THEN Ans(Drop(m, k), <<"val", m[k]>>) ELSE Ans(m, <<"val", d>>)
PopItem(m, last) ==
    IF DOMAIN m = {} THEN KeyErr(m)
    ELSE LET k == IF last = 1 THEN MaxKey(m) ELSE MinKey(m) IN Ans(Drop(m, k), <<"item", k, m[k]>>)
SetDefault(m, k, v) ==
    IF k \in DOMAIN m THEN Ans(m, <<"val", m[k]>>) ELSE Ans(Put(m, k, v), <<"val", v>>)
Update(m, ps) == Ans(PutAll(m, ps), <<"none">>)
New(ps) == Ans(PutAll(Empty, ps), <<"none">>)
Clear == Ans(Empty, <<"none">>)

(* closed interval meets closed range; -9999 / 9999 stand for an open side *)
Meets(k, a, b) == /\ (IF k[1] > a THEN k[1] ELSE a) <= (IF k[2] < b THEN k[2] ELSE b)
InRange(m, a, b) == LET r == [k \in {x \in DOMAIN m : Meets(x, a, b)} |-> m[k]]
                  IN Ans(m, <<"range", Keys(r), Vals(r)>>)
DelPos(m, i, j) ==           \* delete by positions in key order
    LET ks == Keys(m) IN Ans([k \in {ks[p] : p \in {q \in DOMAIN ks : ~(q > i /\ q <= j)}} |-> m[k]], <<"none">>)

OnCur(s, r) == [st |-> [cur |-> r.m, oth |-> s.oth], res |-> r.res]
MapStep(s, e) ==
    LET m == s.cur IN
    CASE e.op = "set" -> OnCur(s, SetItem(m, e.k, e.v))
      [] e.op = "del" -> OnCur(s, DelItem(m, e.k))
      [] e.op = "get" -> OnCur(s, GetItem(m, e.k))
      [] e.op = "getdef" -> OnCur(s, GetDef(m, e.k, e.v))
      [] e.op = "pop" -> OnCur(s, Pop(m, e.k))
      [] e.op = "popdef" -> OnCur(s, PopDef(m, e.k, e.v))
      [] e.op = "popitem" -> OnCur(s, PopItem(m, e.last))
      [] e.op = "setdefault" -> OnCur(s, SetDefault(m, e.k, e.v))
      [] e.op = "update" -> OnCur(s, Update(m, e.ps))
      [] e.op = "new" -> OnCur(s, New(e.ps))
      [] e.op = "clear" -> OnCur(s, Clear)
      [] e.op = "range" -> OnCur(s, InRange(m, e.a, e.b))
      [] e.op = "delpos" -> OnCur(s, DelPos(m, e.a, e.b))
      [] e.op = "bad" -> OnCur(s, KeyErr(m))
      [] e.op = "copy" -> [st |-> [cur |-> m, oth |-> m], res |-> <<"none">>]
      [] e.op = "swap" -> [st |-> [cur |-> s.oth, oth |-> s.cur], res |-> <<"none">>]

MapStart(t) == [cur |-> Empty, oth |-> Empty]
View1(m) == [keys |-> Keys(m), vals |-> Vals(m), rev |-> Reverse(Keys(m)), len |-> Cardinality(DOMAIN m)]
MapExpect(s, e, r) == [res |-> r.res, cur |-> View1(r.st.cur), oth |-> View1(r.st.oth)]

MapJudge(s, e, r) ==
    CASE e.x.res # r.res -> "answer of " \o e.op
      [] e.x.cur.keys # Keys(r.st.cur) -> "keys in ascending order"
      [] e.x.cur.vals # Vals(r.st.cur) -> "values in key order"
      [] e.x.cur.rev # Reverse(Keys(r.st.cur)) -> "reverse iteration"
      [] e.x.cur.len # Cardinality(DOMAIN r.st.cur) -> "length"
      [] e.x.oth # View1(r.st.oth) -> "the other copy is unaffected"
      [] OTHER -> "ok"

(* ---- properties of the specification, checked on the bounded instance *)
Ascending(m) == LET ks == Keys(m) IN \A i, j \in DOMAIN ks : i < j => Less(ks[i], ks[j])
Complete(m) == LET ks == Keys(m) IN /\ {ks[i] : i \in DOMAIN ks} = DOMAIN m
                                    /\ Len(ks) = Cardinality(DOMAIN m)
=========================================================================
