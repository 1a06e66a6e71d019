------------------------------- MODULE Graph --------------------------------
(* The chord graph builder (midi_graph_builder.py).                          *)
(*                                                                           *)
(* A note is [t: onset in 1/U s, p: pitch, v: velocity, d: percussion].  A   *)
(* chord (and hence a node) is a set of pitches; a graph is [n: nodes,       *)
(* w: weights, a function on directed edges, o: for each node the velocity   *)
(* assignments of its occurrences].  A builder is [idx: the chords in the    *)
(* order of their indices, pend: the graphs built and not yet delivered].    *)
(*                                                                           *)
(* Where the documented behaviour leaves a choice (how an oversized group is *)
(* cut, from which node a merged graph goes on with the next track) the      *)
(* specification has a set of outcomes; a recorded build conforms if one of  *)
(* them explains it.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions
CONSTANTS U, Focus

-----------------------------------------------------------------------------
(* Grouping *)
RoundDiv(a, b) == (2 * a + b) \div (2 * b)                       \* nearest integer to a / b
Starts(notes) == SortSeq([i \in DOMAIN notes |-> notes[i].t], <)
Gaps(notes) == LET s == Starts(notes) IN IF Len(s) < 2 THEN <<>> ELSE SortSeq([i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]], <)
(* 100 times the 95th percentile (linear interpolation) of the gaps *)
Tol(notes) == LET g == Gaps(notes) n == Len(g) at == 95 * (n - 1) lo == (at \div 100) + 1 hi == IF lo < n THEN lo + 1 ELSE n
              IN IF n < 2 THEN 0 ELSE 100 * g[lo] + (at % 100) * (g[hi] - g[lo])
Key(t, tol) == IF tol = 0 THEN t ELSE RoundDiv(RoundDiv(100 * t, tol) * tol, U)      \* hundredths of a second
(* the rounding is not decided by the numbers alone: left out by the generators *)
Tie(t, tol) == tol # 0 /\ (\/ (200 * t) % (2 * tol) = tol
                           \/ tol < 2 * U /\ (2 * RoundDiv(100 * t, tol) * tol) % (2 * U) = U)
Ambiguous(notes) == LET tol == Tol(notes) IN \E i \in DOMAIN notes : Tie(notes[i].t, tol)

Audible(notes) == SelectSeq(notes, LAMBDA n : n.v > 0 /\ ~n.d)
Groups(notes, filter) ==                                           \* sequence of sequences of notes, in time order
    LET tol == Tol(notes)
        a == Audible(notes)
        ks == SetToSortSeq({Key(a[i].t, tol) : i \in DOMAIN a}, <)
        gs == [k \in DOMAIN ks |-> SelectSeq(a, LAMBDA n : Key(n.t, tol) = ks[k])]
    IN SelectSeq(gs, LAMBDA g : ~(filter /\ Len(g) = 1))
Chord(group) == {group[i].p : i \in DOMAIN group}

-----------------------------------------------------------------------------
(* Velocities *)
Loudest(group, p) == LET vs == {group[i].v : i \in {j \in DOMAIN group : group[j].p = p}} IN CHOOSE v \in vs : \A z \in vs : z <= v
Rescale(f) ==
    LET vs == Range(f)
        mn == CHOOSE v \in vs : \A z \in vs : v <= z
        mx == CHOOSE v \in vs : \A z \in vs : z <= v
    IN IF Cardinality(DOMAIN f) = 1 THEN [p \in DOMAIN f |-> LET r == RoundDiv(f[p] * 95, 127) + 32 IN IF r > 127 THEN 127 ELSE r]
       ELSE IF mn = mx THEN [p \in DOMAIN f |-> 32]
       ELSE [p \in DOMAIN f |-> ((f[p] - mn) * 95) \div (mx - mn) + 32]
Volume(group, part) == Rescale([p \in part |-> Loudest(group, p)])

-----------------------------------------------------------------------------
(* Walks: the visited nodes with their velocities *)
RECURSIVE Cuts(_, _, _)
Cuts(chord, m, cands) ==                                         \* ways to cut a chord into m parts among cands
    IF m = 0 THEN IF chord = {} THEN {<<>>} ELSE {}
    ELSE UNION {{<<c>> \o r : r \in Cuts(chord \ c, m - 1, cands)} : c \in {x \in cands : x # {} /\ x \subseteq chord}}
Parts(chord, feat, cands) ==
    IF Cardinality(chord) <= feat THEN {<<chord>>}
    ELSE Cuts(chord, (Cardinality(chord) + feat - 1) \div feat, {c \in cands : Cardinality(c) <= feat})
RECURSIVE Walks(_, _, _, _)
Walks(groups, feat, all, cands) ==
    IF groups = <<>> THEN {<<>>}
    ELSE LET g == Head(groups)
             c == Chord(g)
             rest == Walks(Tail(groups), feat, all, cands)
         IN {[i \in DOMAIN q |-> [n |-> q[i], v |-> Volume(g, q[i])]] \o r : q \in Parts(c, feat, IF all THEN SUBSET c ELSE cands), r \in rest}

-----------------------------------------------------------------------------
(* Graphs *)
Empty == [n |-> {}, w |-> <<>>, o |-> <<>>, s |-> 0]
Bump(w, a, b) == IF <<a, b>> \in DOMAIN w THEN [w EXCEPT ![<<a, b>>] = @ + 1] ELSE w @@ (<<a, b>> :> 1)
Join(w, last, new) == IF <<new, last>> \in DOMAIN w THEN Bump(w, new, last) ELSE Bump(w, last, new)
Seen(o, n, v) == IF n \in DOMAIN o THEN [o EXCEPT ![n] = @ \cup {v}] ELSE o @@ (n :> {v})
(* from: {} for a fresh graph, {node} to go on from a node of the graph *)
Follow(g, from, walk) ==
    LET r == FoldLeft(LAMBDA a, x :
                 [w |-> Join(a.w, IF a.l = {} THEN x.n ELSE CHOOSE z \in a.l : TRUE, x.n), l |-> {x.n}, n |-> a.n \cup {x.n}, o |-> Seen(a.o, x.n, x.v)],
                 [w |-> g.w, l |-> from, n |-> g.n, o |-> g.o], walk)
    IN [n |-> r.n, w |-> r.w, o |-> r.o, s |-> g.s + Len(walk)]
Met(idx, walk) == FoldLeft(LAMBDA a, x : IF x.n \in Range(a) THEN a ELSE Append(a, x.n), idx, walk)
Total(w) == FoldLeft(LAMBDA a, d : a + w[d], 0, SetToSeq(DOMAIN w))

Melodic(tracks) == SelectSeq(tracks, LAMBDA k : ~k.drum /\ Len(k.notes) # 1)
TrackWalks(k, e, all, cands) == Walks(Groups(k.notes, e.filter), e.feat, all, cands)

RECURSIVE Each(_, _, _, _, _)
Each(ts, e, all, cands, acc) ==                                  \* per instrument: set of [gs, idx]
    IF ts = <<>> THEN acc
    ELSE Each(Tail(ts), e, all, cands,
              {IF w = <<>> THEN a ELSE [gs |-> Append(a.gs, Follow(Empty, {}, w)), idx |-> Met(a.idx, w)]
                 : a \in acc, w \in TrackWalks(Head(ts), e, all, cands)})
RECURSIVE Whole(_, _, _, _, _, _)
Whole(ts, e, all, cands, links, acc) ==                          \* merged: set of [g, idx]; links: nodes to go on from
    IF ts = <<>> THEN {[gs |-> IF a.g.n = {} THEN <<>> ELSE <<a.g>>, idx |-> a.idx] : a \in acc}
    ELSE Whole(Tail(ts), e, all, cands, links,
               UNION {IF w = <<>> THEN {a}
                      ELSE {[g |-> Follow(a.g, f, w), idx |-> Met(a.idx, w)]
                              : f \in IF a.g.n = {} THEN {{}} ELSE {{z} : z \in {y \in a.g.n : <<y, w[1].n>> \in links \/ <<w[1].n, y>> \in links \/ all}}}
                      : a \in acc, w \in TrackWalks(Head(ts), e, all, cands)})

-----------------------------------------------------------------------------
(* What was observed: chords are lists, identities are small integers *)
Set(l) == Range(l)
ObsChords(e) == {Set(e.x.maps.h2n[i][2]) : i \in DOMAIN e.x.maps.h2n}
Named(e, k) == {Set(e.x.maps.h2n[i][2]) : i \in {j \in DOMAIN e.x.maps.h2n : e.x.maps.h2n[j][1] = k}}
NameOf(e, k) == IF Cardinality(Named(e, k)) = 1 THEN CHOOSE z \in Named(e, k) : TRUE ELSE {-1, k}
ObsEdges(e, g) == {<<NameOf(e, g.edges[i][1]), NameOf(e, g.edges[i][2]), g.edges[i][3]>> : i \in DOMAIN g.edges}
ObsLinks(e) == UNION {{<<z[1], z[2]>> : z \in ObsEdges(e, e.x.subs[i])} : i \in DOMAIN e.x.subs}
ObsNodes(e, g) == {NameOf(e, g.nodes[i].id) : i \in DOMAIN g.nodes}

Outcomes(s, e) ==
    LET seen == "x" \in DOMAIN e
        all == ~seen
        cands == IF seen THEN ObsChords(e) ELSE {}
        links == IF seen THEN ObsLinks(e) ELSE {}
        ts == Melodic(e.tracks)
    IN IF e.merged THEN Whole(ts, e, all, cands, links, {[g |-> Empty, idx |-> s.idx]})
       ELSE Each(ts, e, all, cands, {[gs |-> <<>>, idx |-> s.idx]})

-----------------------------------------------------------------------------
(* Clauses.  New graphs are the last ones of the observed list. *)
AbsEdges(g) == {<<d[1], d[2], g.w[d]>> : d \in DOMAIN g.w}
Pairs(E) == {{z[1], z[2]} : z \in E}
MapsOk(e, idx) ==
    LET m == e.x.maps n == Len(idx)
    IN /\ Len(m.n2h) = n /\ Len(m.h2n) = n /\ Len(m.h2i) = n /\ Len(m.i2h) = n
       /\ \A i \in 1..n : \E k \in {m.h2i[j][1] : j \in 1..n} :
             /\ <<k, i>> \in Range(m.h2i) /\ <<i, k>> \in Range(m.i2h)
             /\ \E j \in 1..n : m.n2h[j][2] = k /\ Set(m.n2h[j][1]) = idx[i]
             /\ \E j \in 1..n : m.h2n[j][1] = k /\ Set(m.h2n[j][2]) = idx[i]
NewGraphs(s, e) == SubSeq(e.x.subs, Len(s.pend) + 1, Len(e.x.subs))
NodesOk(e, obs, g) == ObsNodes(e, obs) = g.n /\ Len(obs.nodes) = Cardinality(g.n)
                      /\ \A i \in DOMAIN obs.nodes : obs.nodes[i].id = obs.nodes[i].nh
Padded(row, k) == \A i \in DOMAIN row : i > k => row[i] = 0
FeatureOk(e, node, g, vel, feat) ==
    LET c == NameOf(e, node.id)
        k == Cardinality(c)
        row == node.x[1]
    IN /\ Len(node.x) = IF vel THEN 2 ELSE 1
       /\ \A r \in DOMAIN node.x : Len(node.x[r]) = feat /\ Padded(node.x[r], k)
       /\ k <= feat /\ {row[i] : i \in 1..k} = c
       /\ vel => c \in DOMAIN g.o /\ [p \in c |-> node.x[2][CHOOSE i \in 1..k : row[i] = p]] \in g.o[c]
(* tensor form against the graph as observed *)
TensorOk(t, g) ==
    LET n == Len(g.nodes)
        at(i) == g.nodes[i + 1].id
    IN /\ Len(t.nh) = n /\ Len(t.x) = n
       /\ \A i \in 1..n : t.nh[i] = g.nodes[i].nh /\ t.x[i] = g.nodes[i].x
       /\ Len(t.src) = Len(t.dst) /\ Len(t.w) = Len(t.src) /\ Len(t.src) = Len(g.edges)
       /\ \A i \in DOMAIN t.src : t.src[i] \in 0..(n - 1) /\ t.dst[i] \in 0..(n - 1)
       /\ {<<at(t.src[i]), at(t.dst[i]), t.w[i]>> : i \in DOMAIN t.src} = {<<z[1], z[2], z[3]>> : z \in Range(g.edges)}

BuildClause(s, e, c) ==
    LET obs == NewGraphs(s, e)
        n == Len(c.gs)
        same == Len(obs) = n
    IN CASE e.x.res # "ok" -> "building failed"
         [] Focus = "walk" ->
              IF ~same THEN "number of graphs"
              ELSE IF \E i \in 1..n : Pairs(ObsEdges(e, obs[i])) # Pairs(AbsEdges(c.gs[i])) THEN "chords joined are not the consecutive ones"
              ELSE "ok"
         [] Focus = "maps" ->
              IF ~MapsOk(e, c.idx) THEN "mappings"
              ELSE IF ~same \/ \E i \in 1..n : ~NodesOk(e, obs[i], c.gs[i]) THEN "node identities"
              ELSE "ok"
         [] Focus = "weights" ->
              IF ~same THEN "number of graphs"
              ELSE IF \E i \in 1..n : ObsEdges(e, obs[i]) # AbsEdges(c.gs[i]) \/ Len(obs[i].edges) # Cardinality(DOMAIN c.gs[i].w) THEN "edge weights"
              ELSE "ok"
         [] Focus = "features" ->
              IF ~same THEN "number of graphs"
              ELSE IF \E i \in 1..n : \E j \in DOMAIN obs[i].nodes : ~FeatureOk(e, obs[i].nodes[j], c.gs[i], e.vel, e.feat) THEN "node features"
              ELSE "ok"
         [] Focus = "tensor" ->
              IF Len(e.x.pyg) # Len(e.x.subs) THEN "number of tensor graphs"
              ELSE IF \E i \in DOMAIN e.x.subs : ~TensorOk(e.x.pyg[i], e.x.subs[i]) THEN "tensor form differs from the graph"
              ELSE "ok"
         [] Focus \in {"modes", "deliver"} ->
              IF ~same \/ Len(e.x.pyg) # Len(e.x.subs) THEN "number of graphs"
              ELSE IF e.x.src # e.tracks THEN "the source piece was modified"
              ELSE IF \E i \in 1..n : ~NodesOk(e, obs[i], c.gs[i]) THEN "nodes are not those of the tracks"
              ELSE IF \E i \in 1..n : FoldLeft(LAMBDA a, z : a + z[3], 0, obs[i].edges) # c.gs[i].s THEN "weights do not add up to the groups"
              ELSE "ok"
         [] OTHER -> "ok"
(* the graphs built as the rest of the history sees them *)
Observed(e, g) == [n |-> ObsNodes(e, g), w |-> FoldLeft(LAMBDA a, z : a @@ (<<NameOf(e, z[1]), NameOf(e, z[2])>> :> z[3]), <<>>, g.edges), o |-> <<>>, s |-> 0]
Published(e) == LET m == e.x.maps.i2h
                    of(i) == {m[j][2] : j \in {k \in DOMAIN m : m[k][1] = i}}
                IN [i \in DOMAIN m |-> IF Cardinality(of(i)) = 1 THEN NameOf(e, CHOOSE k \in of(i) : TRUE) ELSE {-2, i}]

(* graphs delivered: in build order, each labelled with the published indices of its chords *)
DeliverClause(s, e) ==
    LET d == e.x.out
        part == "k" \in DOMAIN e                                      \* abandoned after k graphs
        n == IF part THEN e.k ELSE Len(s.pend)
        name(i, j) == NameOf(e, d[i].nh[j])
        idx == Published(e)
    IN CASE e.x.res # "ok" -> IF s.idx = <<>> THEN "ok" ELSE "delivery failed"
         [] Len(d) # n -> "number of graphs delivered"
         [] \E i \in 1..n : {name(i, j) : j \in DOMAIN d[i].nh} # s.pend[i].n \/ Len(d[i].nh) # Cardinality(s.pend[i].n) -> "a graph delivered is not the one built"
         [] \E i \in 1..n : Len(d[i].w) # Len(d[i].src) \/ Len(d[i].dst) # Len(d[i].src) \/ \E j \in DOMAIN d[i].src : d[i].src[j] >= Len(d[i].nh) \/ d[i].dst[j] >= Len(d[i].nh) -> "an edge delivered refers to no node"
         [] \E i \in 1..n : {<<name(i, d[i].src[j] + 1), name(i, d[i].dst[j] + 1), d[i].w[j]>> : j \in DOMAIN d[i].src} # AbsEdges(s.pend[i]) -> "a graph delivered is not the one built"
         [] \E i \in 1..n : Len(d[i].y) # Len(d[i].nh) \/ \E j \in DOMAIN d[i].nh : d[i].y[j] \notin DOMAIN idx \/ idx[d[i].y[j]] # name(i, j) -> "labels"
         [] \E i \in 1..n : d[i].label # IF e.skip THEN <<-1>> ELSE d[i].y -> "label lists"
         [] part /\ (Len(e.x.subs) # Len(s.pend) \/ Len(e.x.pyg) # Len(s.pend)) -> "graphs lost by an abandoned delivery"
         [] ~part /\ (e.x.subs # <<>> \/ e.x.pyg # <<>>) -> "graphs still held after delivery"
         [] idx # s.idx -> "mappings changed by delivery"
         [] OTHER -> "ok"
Out(g, a) == {d[2] : d \in {z \in DOMAIN g.w : z[1] = a}}
QueryClause(s, e) ==
    LET g == s.pend[e.g]
        u == Set(e.u)
        v == Set(e.v)
        x == e.x
        got == [i \in DOMAIN x.out |-> NameOf(e, x.out[i])]
    IN CASE e.q = "neighbors" ->
              IF u \notin g.n THEN IF x.res = "raise" \/ x.out = <<>> THEN "ok" ELSE "neighbours of an unknown chord"
              ELSE IF x.res = "ok" /\ Set(got) = Out(g, u) /\ Len(got) = Cardinality(Out(g, u)) THEN "ok" ELSE "neighbours"
         [] e.q = "connected" ->
              IF v \notin g.n THEN IF x.res = "raise" \/ x.yes = 0 THEN "ok" ELSE "connected to an unknown chord"
              ELSE IF x.res = "ok" /\ x.yes = (IF <<v, u>> \in DOMAIN g.w THEN 1 ELSE 0) THEN "ok" ELSE "connected"
         [] e.q = "edge" ->
              IF x.res = "ok" /\ got = (IF <<u, v>> \in DOMAIN g.w THEN <<u, v>> ELSE <<>>) THEN "ok" ELSE "edge"
         [] e.q = "merge" ->
              LET M == {Set(e.m[i]) : i \in DOMAIN e.m}
                  kept == {d \in DOMAIN g.w : d[1] \notin M /\ d[2] \notin M}
                  out == UNION {Out(g, a) : a \in M} \ M
                  nm(k) == IF k = x.new THEN {-5} ELSE NameOf(e, k)
                  es == {<<nm(x.edges[i][1]), nm(x.edges[i][2]), x.edges[i][3]>> : i \in DOMAIN x.edges}
              IN CASE x.res # "ok" -> "merging failed"
                   [] {nm(x.nodes[i]) : i \in DOMAIN x.nodes} # (g.n \ M) \cup {{-5}} \/ Len(x.nodes) # Cardinality(g.n) - Cardinality(M) + 1 -> "nodes after merging"
                   [] Len(x.edges) # Cardinality(kept) + Cardinality(out) -> "number of edges after merging"
                   [] \E d \in kept : <<d[1], d[2], g.w[d]>> \notin es -> "an edge elsewhere changed in merging"
                   [] \E b \in out : ~\E a \in M : <<a, b>> \in DOMAIN g.w /\ <<{-5}, b, g.w[<<a, b>>]>> \in es -> "outgoing edges of the merged node"
                   [] {NameOf(e, x.merged[i]) : i \in DOMAIN x.merged} # M -> "record of the nodes merged"
                   [] OTHER -> "ok"

-----------------------------------------------------------------------------
GStart0 == [idx |-> <<>>, pend |-> <<>>]
GStart(t) == GStart0
GStep(s, e) ==
    CASE e.op = "build" ->
           LET C == Outcomes(s, e)
               good == IF "x" \in DOMAIN e THEN {c \in C : BuildClause(s, e, c) = "ok"} ELSE C
               c == IF good # {} THEN CHOOSE z \in good : TRUE ELSE IF C # {} THEN CHOOSE z \in C : TRUE ELSE [gs |-> <<>>, idx |-> s.idx]
           IN [st |-> [idx |-> IF "x" \in DOMAIN e /\ Focus # "maps" THEN Published(e) ELSE c.idx,
                       pend |-> IF "x" \in DOMAIN e THEN s.pend \o [i \in DOMAIN NewGraphs(s, e) |-> Observed(e, NewGraphs(s, e)[i])] ELSE s.pend \o c.gs],
               res |-> IF C = {} THEN "no way of cutting the groups explains the chords met"
                       ELSE IF "x" \in DOMAIN e /\ good = {} THEN BuildClause(s, e, c) ELSE "ok"]
      [] e.op = "graphs" -> [st |-> [s EXCEPT !.pend = IF "k" \in DOMAIN e THEN @ ELSE <<>>], res |-> "ok"]
      [] e.op \in {"query", "refuse"} -> [st |-> s, res |-> "ok"]
      [] e.op = "fresh" -> [st |-> GStart0, res |-> "ok"]          \* a new builder, made of a piece it will build
GExpect(s, e, r) == "recorded"
GJudge(s, e, r) ==
    CASE e.op = "build" -> r.res
      [] e.op = "graphs" -> IF Focus = "deliver" THEN DeliverClause(s, e)
                            ELSE IF Focus = "maps" /\ e.x.res = "ok" /\ ~MapsOk(e, s.idx) THEN "mappings after delivery" ELSE "ok"
      [] e.op = "query" -> IF Focus = "query" THEN QueryClause(s, e) ELSE "ok"
      [] e.op = "fresh" -> IF e.x.subs = <<>> /\ e.x.pyg = <<>> /\ e.x.maps.h2n = <<>> /\ e.x.maps.h2i = <<>> THEN "ok" ELSE "a new builder is not empty"
      [] e.op = "refuse" -> IF e.x.res # "raise" THEN "a request that must be refused" ELSE IF ~e.x.same THEN "a refused request changed the builder" ELSE "ok"

-----------------------------------------------------------------------------
(* Laws of the specification, checked on every graph of the bounded model *)
Steps(walk) == [i \in 1..Len(walk) |-> {walk[i].n, walk[IF i = 1 THEN 1 ELSE i - 1].n}]
Counted(g, walk) ==                                              \* weights are transition counts, irrespective of direction
    /\ Total(g.w) = Len(walk)
    /\ \A a, b \in g.n : LET both == {<<a, b>>, <<b, a>>} \cap DOMAIN g.w
                         IN /\ Cardinality(both) <= 1
                            /\ Total([d \in both |-> g.w[d]]) = Cardinality({i \in 1..Len(walk) : Steps(walk)[i] = {a, b}})
    /\ Pairs(AbsEdges(g)) = Range(Steps(walk))
Partitioned(chord, feat) == \A q \in Parts(chord, feat, SUBSET chord) :
    UNION Range(q) = chord /\ FoldLeft(LAMBDA a, x : a + Cardinality(x), 0, q) = Cardinality(chord) /\ \A i \in DOMAIN q : Cardinality(q[i]) \in 1..feat
============================================================================
