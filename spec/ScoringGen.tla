------------------------------ MODULE ScoringGen ------------------------------
(* Every small graph, split, and table of answers.                             *)
EXTENDS Scoring, Json
CONSTANTS Nodes, Classes, Splits
VARIABLE q
Masks(n) == [1..n -> 0..1] \ {[i \in 1..n |-> 0]}
Graphs(n, k) == [y : [1..n -> 1..Classes], m : [1..k -> [train : Masks(n), val : Masks(n), test : Masks(n)]]]
One(n) == [1..n -> 1..Classes]
Questions ==
    UNION {{[op |-> "train", g |-> [y |-> y, m |-> [i \in 1..k |-> [train |-> m[i], val |-> v, test |-> m[1]]]], C |-> Classes] :
                y \in One(n), m \in [1..k -> Masks(n)], v \in Masks(n)} : n \in 1..Nodes, k \in 1..Splits}
    \cup UNION {{[op |-> "test", g |-> [y |-> y, m |-> <<[train |-> a, val |-> b, test |-> c]>>], C |-> Classes, pred |-> p] :
                y \in One(n), a \in Masks(n), b \in Masks(n), c \in Masks(n), p \in One(n)} : n \in 1..Nodes}
Init == q \in Questions /\ PrintT(ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
(* slopes of a node add up to nothing, only its own label's goes up; a part scored is between nothing and all, and two halves weigh as their sizes *)
Sound ==
    IF q.op = "train"
    THEN \A i \in DOMAIN q.g.y :
            /\ FoldLeft(LAMBDA a, b : Plus(a, b), <<0, 1>>, [c \in 1..q.C |-> Slope(q.g, q.C, i, c)]) = <<0, 1>>
            /\ \A c \in 1..q.C : c # q.g.y[i] => Slope(q.g, q.C, i, c)[1] <= 0
    ELSE \A p \in {"train", "val", "test"} :
            /\ ~Below(Scored(q.g, q.pred, p), <<0, 1>>) /\ ~Below(<<1, 1>>, Scored(q.g, q.pred, p))
            /\ Scored(q.g, q.g.y, p) = <<1, 1>>
==============================================================================
