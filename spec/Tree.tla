-------------------------------- MODULE Tree --------------------------------
(* Interval trees (interval/): whatever the shape of the search tree inside, *)
(* a tree is the set of its intervals [b, e) with data d, and every question *)
(* has the answer that set gives.  d = -1: no data.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Low(a, b) == IF a < b THEN a ELSE b
High(a, b) == IF a > b THEN a ELSE b
Null(i) == i.b >= i.e
Holds(i, p) == i.b <= p /\ p < i.e
Meets(i, b, e) == i.b < e /\ b < i.e
Within(i, b, e) == b <= i.b /\ i.e <= e
Less(i, j) == \/ i.b < j.b \/ (i.b = j.b /\ i.e < j.e) \/ (i.b = j.b /\ i.e = j.e /\ i.d < j.d)
Sorted(S) == SetToSortSeq(S, Less)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
Iv(b, e, d) == [b |-> b, e |-> e, d |-> d]
Elems(l) == {l[i] : i \in DOMAIN l}

(* ---- questions *)
At(T, p) == {i \in T : Holds(i, p)}
Overlap(T, b, e) == IF b >= e THEN {} ELSE {i \in T : Meets(i, b, e)}
Envelop(T, b, e) == IF b >= e THEN {} ELSE {i \in T : Within(i, b, e)}
Begin(T) == IF T = {} THEN 0 ELSE Least({i.b : i \in T})
End(T) == IF T = {} THEN 0 ELSE Greatest({i.e : i \in T})
About(T) == [n |-> Cardinality(T), b |-> Begin(T), e |-> End(T), span |-> End(T) - Begin(T)]
(* each interval that contains others (of another range), with these *)
Nested(T) == Sorted({i \in T : \E j \in T : Within(j, i.b, i.e) /\ j # i})
NestedIn(T, i) == Sorted({j \in T : Within(j, i.b, i.e) /\ j # i})
TwinRanges(T) == \E i, j \in T : i # j /\ i.b = j.b /\ i.e = j.e

(* ---- cutting; what becomes of the data may be asked: f = 1 doubles it below and doubles it and adds one above *)
Given(d) == IF d = -1 THEN 5 ELSE d
Cut(d, below, f) == IF f = 0 THEN d ELSE (2 * Given(d) + (IF below THEN 0 ELSE 1)) % 9973
Chop(T, b, e, f) ==
    {i \in T : ~(Within(i, b, e)) /\ ~(i.b < b /\ Holds(i, b)) /\ ~(i.e > e /\ Holds(i, e))}
    \cup {Iv(i.b, b, Cut(i.d, TRUE, f)) : i \in {i \in T : i.b < b /\ Holds(i, b)}}
    \cup {Iv(e, i.e, Cut(i.d, FALSE, f)) : i \in {i \in T : i.e > e /\ Holds(i, e)}}
Cutting(T, p, f) ==
    LET H == {i \in T : i.b < p /\ p < i.e}
    IN (T \ H) \cup {Iv(i.b, p, Cut(i.d, TRUE, f)) : i \in H} \cup {Iv(p, i.e, Cut(i.d, FALSE, f)) : i \in H}
Bounds(T) == {i.b : i \in T} \cup {i.e : i \in T}
NextBound(T, p) == Least({q \in Bounds(T) : q > p})
Split(T) == UNION {{Iv(p, NextBound(T, p), i.d) : p \in {p \in Bounds(T) : Holds(i, p)}} : i \in T}

(* ---- merging, in order; g = 1: data combined in order, first with init if that is given (>= 0), else starting with the first *)
Combine(a, d) == ((Given(a) * 10) + Given(d)) % 9973
MergeBy(T, Joins(_, _), g, init) ==
    LET S == Sorted(T)
        Opened(i) == IF g = 1 /\ init >= 0 THEN Iv(i.b, i.e, Combine(init, i.d)) ELSE i
        RECURSIVE F(_, _, _)
        (* red: the data combined so far *)
        F(k, out, red) ==
            IF k > Len(S) THEN out
            ELSE LET h == S[k] l == out[Len(out)] IN
                 IF out # <<>> /\ Joins(l, h)
                 THEN LET d == IF g = 1 THEN Combine(red, h.d) ELSE -1 IN F(k + 1, [out EXCEPT ![Len(out)] = Iv(l.b, High(l.e, h.e), d)], d)
                 ELSE F(k + 1, Append(out, Opened(h)), Opened(h).d)
    IN Elems(F(1, <<>>, -1))
MergeOverlaps(T, strict, g, init) == MergeBy(T, LAMBDA l, h : h.b < l.e \/ (strict = 0 /\ h.b = l.e), g, init)
MergeEquals(T, g, init) == MergeBy(T, LAMBDA l, h : h.b = l.b /\ h.e = l.e, g, init)
MergeNeighbors(T, dist, strict, g, init) == MergeBy(T, LAMBDA l, h : h.b - l.e <= dist /\ ~(strict = 1 /\ h.b - l.e < 0), g, init)

(* ---- sets of intervals *)
Algebra(how, A, C) ==
    CASE how = "union" -> A \cup C [] how = "intersection" -> A \cap C [] how = "difference" -> A \ C
      [] how = "symmetric" -> (A \ C) \cup (C \ A)

(* ---- two intervals and a point *)
B2(x) == IF x THEN 1 ELSE 0
Gap(i, j) == IF Meets(i, j.b, j.e) THEN 0 ELSE IF i.b < j.b THEN j.b - i.e ELSE i.b - j.e
Relations(i, j, p) ==
    [over |-> B2(Meets(i, j.b, j.e)), size |-> IF Meets(i, j.b, j.e) THEN Low(i.e, j.e) - High(i.b, j.b) ELSE 0,
     gap |-> Gap(i, j), has |-> B2(Within(j, i.b, i.e)), same |-> B2(i.b = j.b /\ i.e = j.e), eq |-> B2(i = j),
     lt |-> B2(i.e <= j.b), le |-> B2(i.e <= j.e), gt |-> B2(i.b >= j.e), ge |-> B2(i.b >= j.b), before |-> B2(Less(i, j)), after |-> B2(Less(j, i)),
     point |-> B2(Holds(i, p)), off |-> IF Holds(i, p) THEN 0 ELSE IF i.e <= p THEN p - i.e ELSE i.b - p,
     len |-> i.e - i.b]

Put(s, k, T) == [s EXCEPT ![k] = T]
Yes(s, x) == [st |-> s, res |-> [ok |-> 1, x |-> x]]
No(s) == [st |-> s, res |-> [ok |-> 0, x |-> 0]]
TStep(s, e) ==
    CASE e.op = "pair" -> Yes(s, Relations(e.i, e.j, e.p))
      [] OTHER ->
    LET T == s[e.k] IN
    CASE e.op = "new" -> IF \E i \in DOMAIN e.l : Null(e.l[i]) THEN No(s) ELSE Yes(Put(s, e.k, Elems(e.l)), 0)
      [] e.op = "add" -> IF Null(e.i) THEN No(s) ELSE Yes(Put(s, e.k, T \cup {e.i}), 0)
      [] e.op = "remove" -> IF e.i \in T THEN Yes(Put(s, e.k, T \ {e.i}), 0) ELSE No(s)
      [] e.op = "discard" -> Yes(Put(s, e.k, T \ {e.i}), 0)
      [] e.op = "update" -> Yes(Put(s, e.k, T \cup Elems(e.l)), 0)
      [] e.op = "clear" -> Yes(Put(s, e.k, {}), 0)
      [] e.op = "at" -> Yes(s, Sorted(At(T, e.p)))
      [] e.op = "probe" -> Yes(s, [i \in DOMAIN e.ps |-> Sorted(At(T, e.ps[i]))])
      [] e.op = "overlap" -> Yes(s, Sorted(Overlap(T, e.b, e.e)))
      [] e.op = "envelop" -> Yes(s, Sorted(Envelop(T, e.b, e.e)))
      [] e.op = "any" -> Yes(s, B2(IF e.e = e.b THEN At(T, e.b) # {} ELSE Overlap(T, e.b, e.e) # {}))
      [] e.op = "in" -> Yes(s, B2(e.i \in T))
      [] e.op = "about" -> Yes(s, About(T))
      [] e.op = "nested" -> Yes(s, [i \in DOMAIN Nested(T) |-> [i |-> Nested(T)[i], l |-> NestedIn(T, Nested(T)[i])]])
      [] e.op = "cutover" -> Yes(Put(s, e.k, T \ (IF e.e = e.b THEN At(T, e.b) ELSE Overlap(T, e.b, e.e))), 0)
      [] e.op = "cutenvelop" -> Yes(Put(s, e.k, T \ Envelop(T, e.b, e.e)), 0)
      [] e.op = "chop" -> Yes(Put(s, e.k, Chop(T, e.b, e.e, e.f)), 0)
      [] e.op = "slice" -> Yes(Put(s, e.k, Cutting(T, e.p, e.f)), 0)
      [] e.op = "split" -> Yes(Put(s, e.k, Split(T)), 0)
      [] e.op = "overlaps" -> Yes(Put(s, e.k, MergeOverlaps(T, e.strict, e.g, e.init)), 0)
      [] e.op = "equals" -> Yes(Put(s, e.k, MergeEquals(T, e.g, e.init)), 0)
      [] e.op = "neighbors" -> Yes(Put(s, e.k, MergeNeighbors(T, e.dist, e.strict, e.g, e.init)), 0)
      [] e.op = "copy" -> Yes(Put(s, e.to, T), 0)
      [] e.op = "algebra" -> Yes(Put(s, e.to, Algebra(e.how, T, s[e.j])), 0)
      [] e.op = "inplace" -> Yes(Put(s, e.k, Algebra(e.how, T, s[e.j])), 0)
      [] e.op = "compare" -> Yes(s, [eq |-> B2(T = s[e.j]), sub |-> B2(T \subseteq s[e.j]), apart |-> B2(T \cap s[e.j] = {})])
TShow(s) == [k \in DOMAIN s |-> Sorted(s[k])]
TExpect(s, e, r) == [ok |-> r.res.ok, x |-> r.res.x, all |-> TShow(r.st)]
TJudge(s, e, r) ==
    CASE e.x.ok # r.res.ok -> IF r.res.ok = 1 THEN e.op \o " must be accepted" ELSE e.op \o " must be refused"
      [] e.x.all # TShow(r.st) -> "the intervals after " \o e.op
      [] e.x.x # r.res.x -> "answer to " \o e.op
      [] OTHER -> "ok"
TStart0 == <<{}, {}>>
TStart(t) == <<{}, {}>>

(* ---- laws, checked on every state reached *)
NoNull(s) == \A k \in DOMAIN s : \A i \in s[k] : ~Null(i)
Span(T) == {p \in (IF T = {} THEN {} ELSE Begin(T)..End(T)) : At(T, p) # {}}
Laws(s) == \A k \in DOMAIN s : LET T == s[k] IN
    /\ \A p \in Span(T) : Span(Cutting(T, p, 0)) = Span(T)
    /\ Span(Split(T)) = Span(T) /\ Span(MergeOverlaps(T, 1, 0, -1)) = Span(T) /\ Span(MergeOverlaps(T, 0, 0, -1)) = Span(T)
    /\ \A i, j \in MergeOverlaps(T, 1, 0, -1) : i # j => ~Meets(i, j.b, j.e)
    /\ \A i, j \in Split(T) : Meets(i, j.b, j.e) => i.b = j.b /\ i.e = j.e
    /\ \A b \in Begin(T)..End(T), e \in Begin(T)..End(T) : b < e => Overlap(Chop(T, b, e, 0), b, e) = {}
=============================================================================
