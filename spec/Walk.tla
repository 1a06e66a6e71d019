-------------------------------- MODULE Walk ---------------------------------
(* Walking a graph of music nearest first (example03_lstm, example03a_lstm): *)
(* the sequence a model learns to continue.                                  *)
(*                                                                           *)
(* A graph has nodes 0..n-1 and weighted directed edges <<u, v, w>>.  The    *)
(* walk is a machine: its state is the nodes visited with their distances,   *)
(* a step visits a node of the frontier that is nearest to the start and     *)
(* writes down the edges that leave it.  Where several are as near, any may  *)
(* come next.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Far == 1000000
Out(g, u) == {i \in DOMAIN g.edges : g.edges[i][1] = u}
Nearer(a, b) == IF a < b THEN a ELSE b
(* distance of a node from those visited: d is a function on the visited *)
Dist(g, d, v) ==
    LET E == {i \in DOMAIN g.edges : g.edges[i][2] = v /\ g.edges[i][1] \in DOMAIN d}
    IN  FoldSet(LAMBDA i, m : Nearer(d[g.edges[i][1]] + g.edges[i][3], m), Far, E)
Frontier(g, d) == {v \in 0..(g.n - 1) : v \notin DOMAIN d /\ Dist(g, d, v) < Far}
Next1(g, d) == {v \in Frontier(g, d) : \A w \in Frontier(g, d) : Dist(g, d, v) <= Dist(g, d, w)}
Visit(g, d, v) == TLCEval(d @@ (v :> Dist(g, d, v)))
Start(s) == s :> 0
(* what is wrong with a walk that was recorded *)
RECURSIVE Along(_, _, _)
Along(g, d, rest) ==
    IF rest = <<>> THEN IF Frontier(g, d) = {} THEN "ok" ELSE "a node that can be reached was not visited"
    ELSE IF Head(rest) \in DOMAIN d THEN "a node was visited twice"
    ELSE IF Head(rest) \notin Frontier(g, d) THEN "a node that cannot be reached was visited"
    ELSE IF Head(rest) \notin Next1(g, d) THEN "a node was visited before a nearer one"
    ELSE Along(g, Visit(g, d, Head(rest)), Tail(rest))
(* all walks *)
RECURSIVE Walks(_, _)
Walks(g, d) == IF Frontier(g, d) = {} THEN {<<>>} ELSE UNION {{<<v>> \o w : w \in Walks(g, Visit(g, d, v))} : v \in Next1(g, d)}
(* the edges of a walk: those of its nodes, one node after the other, in any order within a node *)
Same(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) : Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})
Leaving(g, u) == LET E == SetToSeq(Out(g, u)) IN [i \in DOMAIN E |-> <<g.edges[E[i]][1], g.edges[E[i]][2]>>]
RECURSIVE EdgesOk(_, _, _)
EdgesOk(g, nodes, edges) ==
    IF nodes = <<>> THEN edges = <<>>
    ELSE LET k == Cardinality(Out(g, Head(nodes))) IN
         Len(edges) >= k /\ Same(SubSeq(edges, 1, k), Leaving(g, Head(nodes))) /\ EdgesOk(g, Tail(nodes), SubSeq(edges, k + 1, Len(edges)))
-----------------------------------------------------------------------------
WStart(t) == 0
WStep(s, e) == [st |-> s, res |-> 0]
WJudge(s, e, r) ==
    CASE e.x.out # "ok" -> "failed: " \o e.op
      [] ~e.x.same -> "the graph given was changed"
      [] e.op = "walk" ->
            IF e.x.nodes = <<>> \/ Head(e.x.nodes) # e.from THEN "the walk does not begin where it was told"
            ELSE LET w == Along(e.g, Start(e.from), Tail(e.x.nodes)) IN
                 IF w # "ok" THEN w ELSE IF ~EdgesOk(e.g, e.x.nodes, e.x.edges) THEN "edges of the walk" ELSE "ok"
      [] e.op = "embed" ->                       \* an edge is described by its source, then its target
            IF e.x.rows = [i \in DOMAIN e.g.edges |-> e.table[e.g.edges[i][1] + 1] \o e.table[e.g.edges[i][2] + 1]] /\ e.x.nodes \in {<<>>, e.table} THEN "ok"
            ELSE "description of an edge"
      [] e.op = "names" -> IF e.x.r = [i \in DOMAIN e.found |-> e.names[e.found[i] + 1]] THEN "ok" ELSE "identities of labels"
=============================================================================
