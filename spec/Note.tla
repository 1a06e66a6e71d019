------------------------------- MODULE Note -------------------------------
(* MidiNote (midi/midi_note.py).  Times are integers in units of 1/8000 s, *)
(* which represents multiples of 1/64 s, 1/100 s and 1 ms exactly.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

U == 8000
MsU == 8            \* one millisecond
HundU == 80         \* one hundredth of a second

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == MaxI(lo, MinI(x, hi))
FloorDiv(a, b) == a \div b
CeilDiv(a, b) == -((-a) \div b)
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128}

(* ---- creation: refused when the end is not after the start or the meter is invalid *)
Valid(a) == a.e > a.s /\ a.nu > 0 /\ a.de \in Pow2
Made(a) == [s |-> a.s, e |-> a.e, p |-> Clamp(a.p, 0, 127), v |-> Clamp(a.v, 0, 127),
            pr |-> Clamp(a.pr, 0, 255), ins |-> Clamp(a.ins, 0, 127), qs |-> a.qs, qe |-> a.qe,
            vo |-> a.vo, nu |-> Clamp(a.nu, 1, 255), de |-> a.de, dr |-> a.dr]
NoNote == [s |-> -1]

IsQuantized(n) == n.qs >= 0 /\ n.qe >= 0

(* ---- assignments: [ok, n] *)
Ok(n) == [ok |-> 1, n |-> n]
Refuse(n) == [ok |-> 0, n |-> n]
SetStart(n, t) == IF t < 0 \/ t >= n.e THEN Refuse(n) ELSE Ok([n EXCEPT !.s = t])
SetEnd(n, t) == IF t < 0 \/ t <= n.s THEN Refuse(n) ELSE Ok([n EXCEPT !.e = t])
SetPitch(n, p) == IF p \in 0..127 THEN Ok([n EXCEPT !.p = p]) ELSE Refuse(n)
SetProgram(n, p) == IF p \in 0..255 THEN Ok([n EXCEPT !.pr = p]) ELSE Refuse(n)
SetQS(n, q) == IF q < 0 THEN Refuse(n) ELSE Ok([n EXCEPT !.qs = q])
SetQE(n, q) == IF q < 0 THEN Refuse(n) ELSE Ok([n EXCEPT !.qe = q])
Shift(n, d) == [n EXCEPT !.s = @ + d, !.e = @ + d]
Stretch(n, num, den) == [n EXCEPT !.s = (@ * num) \div den, !.e = (@ * num) \div den]

(* ---- quantization on a grid of sps steps per second; amount = a4/4 *)
FloorStep(t, sps, a4) == MaxI(0, FloorDiv(t * sps + (4 - a4) * (U \div 4), U))
CeilStep(t, sps, a4) == MaxI(0, CeilDiv(t * sps + (4 - a4) * (U \div 4), U))
(* step time in hundredths of a second, ties to even *)
Hund(q, sps) == LET f == (100 * q) \div sps
                    r == (100 * q) % sps
                IN IF 2 * r < sps THEN f ELSE IF 2 * r > sps THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
Quantize(n, sps, a4) ==
    LET qs == FloorStep(n.s, sps, a4)
        qe == CeilStep(n.e, sps, a4)
        ns == MinI(Hund(qs, sps) * HundU, n.e - MsU)
        ne == Hund(qe, sps) * HundU
    IN [n EXCEPT !.qs = qs, !.qe = qe, !.s = ns, !.e = IF ne < n.e THEN ns + (n.e - n.s) ELSE ne]

(* ---- order and equality *)
Lt(a, b) == \/ a.s < b.s
            \/ a.s = b.s /\ a.e < b.e
            \/ a.s = b.s /\ a.e = b.e /\ a.p < b.p
Le(a, b) == a.s < b.s \/ (a.s = b.s /\ a.e <= b.e)
Key(a) == <<a.s, a.e, a.p>>
SortedNotes(l) == \A i \in 1..(Len(l) - 1) : ~Lt(l[i + 1], l[i])
Overlap(a, b) == MaxI(a.s, b.s) < MinI(a.e, b.e)
B(x) == IF x THEN 1 ELSE 0
Count(l, x) == Cardinality({i \in DOMAIN l : l[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
===========================================================================
