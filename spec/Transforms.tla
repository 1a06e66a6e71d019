----------------------------- MODULE Transforms -----------------------------
(* Graph transforms (transforms.py).  A graph is                             *)
(*   x      one feature row per node (the first number identifies the node)  *)
(*   y, tr, va, te, h, lab   per-node labels, masks, identities, label lists *)
(*          (each <<>> if the graph has none)                                *)
(*   edges  <<[s, t, w]>> with nodes counted from 1 and w the weights        *)
(*          (<<>> on graphs without weights)                                 *)
(*   gid    <<>> or <<identifier>>                                           *)
(* The outcome of a random transform is any graph its relation allows; the   *)
(* recorded one becomes the state from which the next transform continues.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

PerNode == {"y", "tr", "va", "te", "h", "lab"}
N(g) == Len(g.x)
Ids(g) == {g.x[i][1] : i \in DOMAIN g.x}
Unique(g) == Cardinality(Ids(g)) = N(g)
At(g, id) == CHOOSE i \in DOMAIN g.x : g.x[i][1] = id
Count(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Count(p, p[i]) = Count(q, p[i])
SubBag(p, q) == \A i \in DOMAIN p : Count(p, p[i]) <= Count(q, p[i])
WellFormed(g) ==
    /\ \A i \in DOMAIN g.edges : g.edges[i].s \in 1..N(g) /\ g.edges[i].t \in 1..N(g)
    /\ \A f \in PerNode : Len(g[f]) \in {0, N(g)}
    /\ g.n = N(g)
(* edges with their nodes by identity, which survives renumbering *)
Named(g, E) == [i \in DOMAIN E |-> [s |-> g.x[E[i].s][1], t |-> g.x[E[i].t][1], w |-> E[i].w]]
SelectSeq2(q, T(_)) == SelectSeq(q, T)

(* floor(p * n); a rate no binary number holds exactly may lose one *)
Exact(p) == p[2] \in {1, 2, 4, 8, 16}
Floors(p, n) == LET k == (p[1] * n) \div p[2] IN IF ~Exact(p) /\ (p[1] * n) % p[2] = 0 /\ k > 0 THEN {k, k - 1} ELSE {k}

DropNodes(g, h, p) ==
    CASE ~WellFormed(h) -> "the graph left is not well formed"
      [] N(g) - N(h) \notin Floors(p, N(g)) -> "number of nodes kept"
      [] ~Unique(h) \/ ~(Ids(h) \subseteq Ids(g)) -> "nodes kept are not nodes given"
      [] \E i \in DOMAIN h.x : h.x[i] # g.x[At(g, h.x[i][1])] -> "features of a kept node"
      [] \E f \in PerNode : (h[f] = <<>>) # (g[f] = <<>> \/ N(h) = 0) -> "a per-node attribute appeared or vanished"
      [] \E f \in PerNode : \E i \in DOMAIN h[f] : h[f][i] # g[f][At(g, h.x[i][1])] -> "labels, masks or identities of a kept node"
      [] ~SameBag(Named(h, h.edges), SelectSeq(Named(g, g.edges), LAMBDA e : e.s \in Ids(h) /\ e.t \in Ids(h))) -> "edges between kept nodes"
      [] h.gid # g.gid -> "graph identifier"
      [] OTHER -> "ok"
DropEdges(g, h, p) ==
    CASE ~WellFormed(h) -> "the graph left is not well formed"
      [] h.x # g.x \/ h.gid # g.gid -> "nodes or identifier changed"
      [] \E f \in PerNode : h[f] # g[f] -> "labels, masks or identities changed"
      [] ~SubBag(h.edges, g.edges) -> "edges kept are not edges given"
      [] p[1] = 0 /\ Len(h.edges) # Len(g.edges) -> "edges lost at rate 0"
      [] p[1] = p[2] /\ h.edges # <<>> -> "edges kept at rate 1"
      [] OTHER -> "ok"
OutDegree(g, i) == Cardinality({k \in DOMAIN g.edges : g.edges[k].s = i})
Degree(g) == [g EXCEPT !.x = [i \in DOMAIN g.x |-> Append(g.x[i], OutDegree(g, i))]]
WithId(g, k) == [g EXCEPT !.gid = <<k>>]

(* Every set of nodes (of edges) that the rate allows can be the one kept *)
Subsets(S, k) == {T \in SUBSET S : Cardinality(T) = k}
Drawn(e) == {{e.x.draws[i][j] : j \in DOMAIN e.x.draws[i]} : i \in DOMAIN e.x.draws}
Possible(g, e) == IF e.what = "nodes" THEN {Subsets(Ids(g), N(g) - k) : k \in Floors(e.p, N(g))} ELSE {SUBSET (DOMAIN g.edges)}

Diff(g, h) == CASE h.x # g.x -> "features" [] h.edges # g.edges -> "edges" [] h.gid # g.gid -> "graph identifier"
                [] h # g -> "labels, masks or identities" [] OTHER -> "ok"

-----------------------------------------------------------------------------
TStart(t) == t.g
After(s, e) ==
    CASE e.x.out # "ok" -> s
      [] e.op \in {"dropnodes", "dropedges", "degree", "gid"} -> e.x.g
      [] OTHER -> s
TStep(s, e) == [st |-> After(s, e), res |-> "see Judge"]
TJudge(s, e, r) ==
    IF e.x.out # "ok" THEN "the transform failed"
    ELSE IF e.op # "draws" /\ e.x.before # s THEN "the graph given was changed"
    ELSE CASE e.op = "dropnodes" -> DropNodes(s, e.x.g, e.p)
           [] e.op = "dropedges" -> DropEdges(s, e.x.g, e.p)
           [] e.op = "degree" -> Diff(Degree(s), e.x.g)
           [] e.op = "gid" -> Diff(WithId(s, e.x.reported), e.x.g)
           [] e.op = "draws" -> IF Drawn(e) \in Possible(s, e) THEN "ok" ELSE "not every outcome is drawn, or others are"
=============================================================================
