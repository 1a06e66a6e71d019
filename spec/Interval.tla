----------------------------- MODULE Interval -----------------------------
(* Closed intervals (midi/Interval.py) over an integer line, defined by    *)
(* the points they contain; what the code computes from bounds must agree  *)
(* with the point sets.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pts(a) == a[1]..a[2]
Meet(a, b) == Pts(a) \cap Pts(b)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Hull(a, b) == LET U == Pts(a) \cup Pts(b) IN <<Min(U), Max(U)>>
Inter(a, b) == IF Meet(a, b) = {} THEN <<>> ELSE <<Min(Meet(a, b)), Max(Meet(a, b))>>
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
B(x) == IF x THEN 1 ELSE 0

Pair(a, b) == [ov |-> B(Meet(a, b) # {}), vo |-> B(Meet(b, a) # {}), inter |-> Inter(a, b), retni |-> Inter(b, a),
               union |-> Hull(a, b), noinu |-> Hull(b, a),
               eq |-> B(a = b), lt |-> B(Lt(a, b)), le |-> B(Lt(a, b) \/ a = b),
               gt |-> B(Lt(b, a)), ge |-> B(Lt(b, a) \/ a = b), hashok |-> 1]
Member(a, p) == B(p \in Pts(a))
(* what is not an interval equals none, and comes neither before nor after one *)
Apart == [eq |-> 0, ne |-> 1, order |-> <<0, 0, 0, 0>>]
IStep(s, e) == [st |-> s, res |-> CASE e.op = "pair" -> Pair(e.a, e.b)
                                    [] e.op = "member" -> [in |-> Member(e.a, e.p)]
                                    [] e.op = "stranger" -> Apart]
IExpect(s, e, r) == r.res
IJudge(s, e, r) == IF e.op = "member" THEN (IF e.x = r.res THEN "ok" ELSE "membership agrees with the bounds")
    ELSE IF e.op = "stranger" THEN (IF e.x = r.res THEN "ok" ELSE "nothing but an interval equals or orders with one")
    ELSE CASE e.x.ov # r.res.ov \/ e.x.vo # r.res.vo -> "overlap iff a common point exists, symmetrically"
      [] e.x.inter # r.res.inter \/ e.x.retni # r.res.retni -> "intersection contains exactly the common points"
      [] e.x.union # r.res.union \/ e.x.noinu # r.res.noinu -> "union is the smallest interval containing both"
      [] e.x # r.res -> "equality, hash and lexicographic order agree"
      [] OTHER -> "ok"
IStart(t) == 0
===========================================================================
