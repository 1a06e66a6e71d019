------------------------------- MODULE Events -------------------------------
(* What lies along a piece beside its notes, as values:                      *)
(*   cc controller change, pb pitch bend (midi_control_change.py,            *)
(*   midi_pitch_bend.py), te tempo, ts time signature, ks key signature      *)
(*   (midi_time_signature.py, midi_key_signature.py), in instrument          *)
(*   (midi_instruments.py), base what a controller number stands for.        *)
(* The state is the list of all values made so far, so that what an          *)
(* operation does to any other value shows.  Times as in Note; qpm in halves.*)
EXTENDS Note, SequencesExt
Halves == {"te"}
Timed == {"te", "ts", "ks", "cc"}

(* ---- construction: what is out of range is refused, or moved into it *)
Powers == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Groups == <<"Piano", "Chromatic Percussion", "Organ", "Guitar", "Bass", "Strings", "Ensemble", "Brass", "Reed", "Pipe",
            "Synth Lead", "Synth Pad", "Synth Effects", "Ethnic", "Percussive", "Sound Effects">>
GroupOf(i) == IF i \in 1..128 THEN Groups[((i - 1) \div 8) + 1] ELSE "Unknown"
Acceptable(a) ==
    /\ a.bad = 0                                     \* of the right types
    /\ CASE a.k = "pb" -> a.a \in -8192..8191 /\ a.pr \in 0..127 /\ a.ins \in 0..127 /\ a.t >= 0
         [] a.k = "te" -> a.q2 > 0 /\ a.res > 0
         [] a.k = "ts" -> a.nu > 0 /\ a.de \in Powers
         [] a.k = "ks" -> a.mode \in {0, 1}
         [] a.k = "in" -> a.i \in 0..255
         [] OTHER -> TRUE
Form(a) ==
    CASE a.k = "cc" -> [k |-> "cc", n |-> Clamp(a.n, 0, 255), v |-> Clamp(a.v, 0, 255), t |-> MaxI(a.t, 0), pr |-> Clamp(a.pr, 0, 255),
                        ins |-> Clamp(a.ins, 0, 255), dr |-> a.dr, st |-> Clamp(a.st, 1, 32), qs |-> a.qs, qe |-> a.qe, seq |-> 0]
      [] a.k = "pb" -> [k |-> "pb", a |-> a.a, t |-> a.t, pr |-> a.pr, ins |-> a.ins, dr |-> a.dr]
      [] a.k = "te" -> [k |-> "te", t |-> a.t, q2 |-> a.q2, res |-> a.res, seq |-> 0]
      [] a.k = "ts" -> [k |-> "ts", t |-> a.t, nu |-> a.nu, de |-> a.de, seq |-> 0]
      [] a.k = "ks" -> [k |-> "ks", t |-> a.t, key |-> a.key, mode |-> IF a.mode = 0 THEN "MAJOR" ELSE "MINOR", seq |-> 0]
      [] a.k = "in" -> [k |-> "in", i |-> a.i, name |-> IF a.name = "" THEN GroupOf(a.i) ELSE a.name, dr |-> a.dr]
      [] a.k = "base" -> [k |-> "base", n |-> a.n, d |-> a.d]
(* made from what it cannot be made without *)
Standard(k) ==
    CASE k = "te" -> [k |-> "te", t |-> 0, q2 |-> 240, res |-> 480, seq |-> 0]
      [] k = "ts" -> [k |-> "ts", t |-> 0, nu |-> 4, de |-> 4, seq |-> 0]
      [] k = "ks" -> [k |-> "ks", t |-> 0, key |-> 0, mode |-> "MAJOR", seq |-> 0]
      [] k = "cc" -> [k |-> "cc", n |-> 7, v |-> 100, t |-> 0, pr |-> 0, ins |-> 0, dr |-> 0, st |-> 4, qs |-> -1, qe |-> -1, seq |-> 0]
      [] k = "pb" -> [k |-> "pb", a |-> 100, t |-> 0, pr |-> 0, ins |-> 0, dr |-> 0]

(* ---- assignment *)
Assignable(o, f, v) ==
    CASE f = "seq" -> TRUE
      [] f = "t" -> IF o.k = "pb" THEN v >= 0 ELSE TRUE
      [] f \in {"pr", "ins"} -> v \in 0..127
      [] f = "st" -> v \in 1..32
      [] f = "qs" -> v >= 0 /\ v < o.qe
      [] f = "qe" -> v >= 0 /\ v > o.qs
      [] OTHER -> TRUE
Assigned(o, f, v) == [o EXCEPT ![f] = v]

(* ---- the grid *)
OnGrid(o) == o.qs >= 0 /\ o.qe >= 0
QuantizedCC(o, sps, a4) == LET q == FloorStep(o.t, sps, a4) IN [o EXCEPT !.qs = q, !.qe = q + 1, !.st = sps]

(* ---- order and equality; near: times that differ by rounding only *)
Before(a, b, near) ==
    CASE a.k = "in" -> a.i < b.i
      [] a.k = "base" -> a.n < b.n
      [] OTHER -> IF a.t # b.t THEN a.t < b.t ELSE a.seq < b.seq
Same(a, b) == IF a.k = "cc" THEN [a EXCEPT !.seq = 0] = [b EXCEPT !.seq = 0] ELSE a = b
Ordered(k) == k \in Timed \cup {"in", "base"}
Comparable(k) == k \in {"cc", "pb", "in", "base"}
(* a stable sort of the values of a kind, as positions *)
Sorting(s, k) ==
    LET P == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i].k = k)
    IN SortSeq(P, LAMBDA i, j : Before(s[i], s[j], 0) \/ (~Before(s[j], s[i], 0) /\ i < j))
Order(s, k) == LET q == Sorting(s, k) IN [i \in DOMAIN q |-> q[i] - 1]

(* ---- answers *)
Relations(a, b, near) ==
    [lt |-> IF Ordered(a.k) THEN B(Before(a, b, near)) ELSE -1, gt |-> IF Ordered(a.k) THEN B(Before(b, a, near)) ELSE -1,
     eq |-> IF Comparable(a.k) /\ near = 0 THEN B(Same(a, b)) ELSE -1]
Derived(o) ==
    CASE o.k = "cc" -> B(OnGrid(o))
      [] o.k = "pb" -> <<o.t, o.t>>
      [] OTHER -> o

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fraction(a, b) == LET g == Gcd(a, b) IN <<a \div g, b \div g>>
Put(s, i, o) == [s EXCEPT ![i + 1] = o]
Yes(s, x) == [st |-> s, res |-> [ok |-> 1, x |-> x]]
No(s) == [st |-> s, res |-> [ok |-> 0, x |-> 0]]
EStep(s, e) ==
    CASE e.op = "new" -> IF Acceptable(e.a) THEN Yes(Append(s, Form(e.a)), 0) ELSE No(s)
      [] e.op = "standard" -> Yes(Append(s, Standard(e.k)), 0)
      [] e.op = "set" -> IF Assignable(s[e.i + 1], e.f, e.v) THEN Yes(Put(s, e.i, Assigned(s[e.i + 1], e.f, e.v)), 0) ELSE No(s)
      [] e.op = "shift" -> Yes(Put(s, e.i, [s[e.i + 1] EXCEPT !.t = @ + e.d]), 0)
      [] e.op = "copy" -> LET o == s[e.i + 1] IN
            Yes(Append(s, [o EXCEPT !.t = IF e.t >= 0 THEN e.t ELSE @, !.qs = IF e.qs >= 0 THEN e.qs ELSE @, !.qe = IF e.qe >= 0 THEN e.qe ELSE @]), 0)
      [] e.op = "quantize" -> IF e.sps \in 1..32 THEN Yes(Put(s, e.i, QuantizedCC(s[e.i + 1], e.sps, e.a4)), 0) ELSE No(s)
      [] e.op = "quantized" -> IF e.sps \in 1..32 THEN Yes(Append(s, QuantizedCC(s[e.i + 1], e.sps, e.a4)), 0) ELSE No(s)
      [] e.op = "cmp" -> Yes(s, Relations(s[e.i + 1], s[e.j + 1], e.near))
      [] e.op = "sort" -> Yes(s, Order(s, e.k))
      [] e.op = "derived" -> Yes(s, Derived(s[e.i + 1]))
      [] e.op = "dict" -> Yes(Append(s, s[e.i + 1]), s[e.i + 1])
      (* a tick lasts 60 / (qpm * resolution) seconds, a quarter as many ticks as the resolution *)
      [] e.op = "pace" -> LET o == s[e.i + 1] IN Yes(s, [tick |-> Fraction(120, o.q2 * o.res), quarter |-> Fraction(120, o.q2)])
      (* us microseconds a quarter; the answer in eighths of a quarter a minute *)
      [] e.op = "qpm" -> Yes(s, 480000000 \div e.us)
      [] e.op = "table" -> Yes(s, [keys |-> 1, range |-> 1, distinct |-> 1, frozen |-> 1])
EJudge(s, e, r) ==
    CASE e.x.ok # r.res.ok -> IF r.res.ok = 1 THEN e.op \o " must be accepted" ELSE e.op \o " must be refused"
      [] e.x.all # r.st -> IF r.res.ok = 1 THEN "values after " \o e.op ELSE "refused, and yet something changed"
      [] r.res.ok = 0 -> "ok"
      [] e.x.x # r.res.x -> "answer to " \o e.op
      [] OTHER -> "ok"
EExpect(s, e, r) == [ok |-> r.res.ok, all |-> r.st, x |-> r.res.x]
EStart0 == <<>>
EStart(t) == <<>>

(* ---- what the operations above must make true *)
Legal(o) ==
    CASE o.k = "cc" -> o.n \in 0..255 /\ o.v \in 0..255 /\ o.st \in 1..32 /\ o.t >= 0
      [] o.k = "pb" -> o.a \in -8192..8191 /\ o.pr \in 0..127 /\ o.ins \in 0..127 /\ o.t >= 0
      [] o.k = "te" -> o.q2 > 0 /\ o.res > 0
      [] o.k = "ts" -> o.nu > 0 /\ o.de \in Powers
      [] o.k = "in" -> o.i \in 0..255 /\ o.name # ""
      [] OTHER -> TRUE
StrictOrder(s) ==
    \A i, j, k \in DOMAIN s : (s[i].k = s[j].k /\ s[j].k = s[k].k /\ Ordered(s[i].k)) =>
        /\ ~(Before(s[i], s[j], 0) /\ Before(s[j], s[i], 0))
        /\ (Before(s[i], s[j], 0) /\ Before(s[j], s[k], 0)) => Before(s[i], s[k], 0)
        /\ (Same(s[i], s[j]) /\ s[i].k # "cc") => ~Before(s[i], s[j], 0)
=============================================================================
