--------------------------- MODULE TransformsGen ---------------------------
(* Chains of transforms over every small graph, with every outcome of the    *)
(* random ones built explicitly; each is checked against the relations by    *)
(* which recorded outcomes are judged.                                       *)
EXTENDS Transforms, Json
CONSTANTS MaxN, MaxE, Depth, Rates
VARIABLES g0, g, hist
Pairs(n) == {<<a, b>> : a \in 1..n, b \in 1..n}
Seqs(S) == LET RECURSIVE To(_) To(T) == IF T = {} THEN <<>> ELSE LET p == CHOOSE p \in T : TRUE IN <<p>> \o To(T \ {p}) IN To(S)
Graphs == UNION {{LET E == Seqs(S) IN
             [n |-> n, x |-> [i \in 1..n |-> <<i, 7>>], y |-> [i \in 1..n |-> i % 2], tr |-> [i \in 1..n |-> i % 2], va |-> <<>>, te |-> [i \in 1..n |-> 1],
              h |-> [i \in 1..n |-> 100 + i], lab |-> <<>>, gid |-> <<>>,
              edges |-> [i \in DOMAIN E |-> [s |-> E[i][1], t |-> E[i][2], w |-> IF wt THEN <<i>> ELSE <<>>]]]
             : S \in {S \in SUBSET Pairs(n) : Cardinality(S) <= MaxE}, wt \in BOOLEAN} : n \in 1..MaxN}
Keep(q, K) == LET RECURSIVE F(_) F(i) == IF i > Len(q) THEN <<>> ELSE (IF i \in K THEN <<q[i]>> ELSE <<>>) \o F(i + 1) IN F(1)
Rank(K, i) == Cardinality({j \in K : j <= i})
KeepNodes(s, K) ==
    [s EXCEPT !.n = Cardinality(K), !.x = Keep(@, K), !.y = Keep(@, K), !.tr = Keep(@, K), !.va = Keep(@, K), !.te = Keep(@, K), !.h = Keep(@, K), !.lab = Keep(@, K),
     !.edges = LET E == SelectSeq(s.edges, LAMBDA e : e.s \in K /\ e.t \in K) IN [i \in DOMAIN E |-> [E[i] EXCEPT !.s = Rank(K, @), !.t = Rank(K, @)]]]
KeepEdges(s, K) == [s EXCEPT !.edges = Keep(@, K)]
Outcomes(s, e) ==
    CASE e.op = "dropnodes" -> {KeepNodes(s, K) : K \in UNION {Subsets(DOMAIN s.x, s.n - k) : k \in Floors(e.p, s.n)}}
      [] e.op = "dropedges" -> {KeepEdges(s, K) : K \in CASE e.p[1] = 0 -> {DOMAIN s.edges} [] e.p[1] = e.p[2] -> {{}} [] OTHER -> SUBSET DOMAIN s.edges}
      [] e.op = "degree" -> {Degree(s)}
      [] e.op = "gid" -> {WithId(s, 3)}
Cs(s) == {[op |-> o, p |-> <<r, 4>>] : o \in {"dropnodes", "dropedges"}, r \in Rates} \cup {[op |-> o] : o \in {"degree", "gid"}}
Init == g0 \in Graphs /\ g = g0 /\ hist = <<>>
Next == /\ Len(hist) < Depth /\ g.x # <<>>
        /\ \E e \in Cs(g) : \E h \in Outcomes(g, e) :
             /\ Assert(TJudge(g, e @@ [x |-> [out |-> "ok", before |-> g, g |-> h, reported |-> 3]], 0) = "ok", "a constructed outcome is not admitted")
             /\ g' = h
             /\ hist' = Append(hist, e)
             /\ UNCHANGED g0
             /\ (Len(hist') = Depth \/ h.x = <<>>) => PrintT(ToJson([g |-> g0, c |-> hist']))
Spec == Init /\ [][Next]_<<g0, g, hist>>
Sound == WellFormed(g) /\ Ids(g) \subseteq Ids(g0)
         /\ \A i \in DOMAIN g.edges : \E j \in DOMAIN g0.edges : Named(g, g.edges)[i] = Named(g0, g0.edges)[j]
=============================================================================
