------------------------------- MODULE WalkGen -------------------------------
(* Every small graph, from every node.                                        *)
EXTENDS Walk, Json
CONSTANTS Nodes, MaxEdges, Weights
VARIABLE q
Pairs(n) == (0..(n - 1)) \X (0..(n - 1))
Graph(n) == UNION {{[n |-> n, edges |-> LET s == SetToSeq(E) IN [i \in DOMAIN s |-> <<s[i][1], s[i][2], w[s[i]]>>]] : w \in [E -> Weights]} :
                   E \in {X \in SUBSET Pairs(n) : Cardinality(X) \in 1..MaxEdges}}
Init == q \in UNION {{[op |-> "walk", g |-> g, from |-> s] : g \in Graph(n), s \in 0..(n - 1)} : n \in 1..Nodes} /\ PrintT(ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
(* every walk the machine can take is accepted, visits exactly what can be reached, and its distances never go down *)
RECURSIVE Reach(_, _)
Reach(g, R) == LET M == R \cup {g.edges[i][2] : i \in {j \in DOMAIN g.edges : g.edges[j][1] \in R}} IN IF M = R THEN R ELSE Reach(g, M)
Sound ==
    LET ws == Walks(q.g, Start(q.from)) IN
    \A w \in ws : Along(q.g, Start(q.from), w) = "ok" /\ Range(w) \cup {q.from} = Reach(q.g, {q.from})
==============================================================================
