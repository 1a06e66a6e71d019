------------------------------ MODULE Dataset -------------------------------
(* The dataset built from MIDI files (midi_dataset.py), on top of the graph  *)
(* builder.  A root directory holds, per setting (velocity, feature size),   *)
(* what was processed there first: the files then given and the options then *)
(* in force, and what each of the two collections looked like when opened.   *)
(* A process that dies while a root is being filled leaves either nothing    *)
(* (the next opening processes the files given then) or all of it: which of  *)
(* the two shows at the next opening, until then the entry is not sure.      *)
EXTENDS Graph

Key2(e) == <<e.vel, e.feat>>
Stored(s, e) == {i \in DOMAIN s : s[i].key = Key2(e)}
Fresh(e) == [key |-> Key2(e), files |-> e.files, filter |-> e.filter, split |-> e.split, tr |-> e.tr, va |-> e.va,
                                          remove |-> e.remove, keep |-> e.keep, pre |-> e.pre, per |-> <<>>, whole |-> <<>>]
(* what the root can hold for the settings of e *)
Held(s, e) == IF Stored(s, e) = {} THEN {Fresh(e)} ELSE LET n == s[CHOOSE i \in Stored(s, e) : TRUE] IN n.ds \cup (IF n.sure THEN {} ELSE {Fresh(e)})

-----------------------------------------------------------------------------
(* What processing must have stored *)
As(d, e, k) == [merged |-> e.mode = "whole", vel |-> e.vel, feat |-> e.feat, filter |-> d.filter, tracks |-> <<>>,
                x |-> [maps |-> e.x.maps, subs |-> IF k = 0 THEN e.x.graphs ELSE IF k <= Len(e.x.graphs) THEN <<e.x.graphs[k]>> ELSE <<>>]]
(* a graph with too few nodes is not stored; its chords keep their indices *)
Kept(d, gs) == SelectSeq(gs, LAMBDA g : Cardinality(g.n) >= d.keep)
AllTracks(d) == FoldLeft(LAMBDA a, f : a \o Melodic(f), <<>>, d.files)
(* one graph per file: keep, where there is a choice, what explains the graph seen at that place *)
RECURSIVE PerFile(_, _, _, _)
PerFile(fs, d, e, acc) ==
    IF fs = <<>> THEN acc
    ELSE LET k == Len(acc.gs) + 1
             v == As(d, e, k)
             ways(links) == Whole(Melodic(Head(fs)), v, FALSE, ObsChords(e), links, {[g |-> Empty, idx |-> acc.idx]})
             R == ways(ObsLinks(v))
             fit == {r \in R : r.gs # <<>> /\ k <= Len(e.x.graphs) /\ AbsEdges(r.gs[1]) = ObsEdges(e, e.x.graphs[k])}
             (* too few nodes to be stored: no link of it is seen *)
             lost == IF fit # {} \/ d.keep = 0 THEN {} ELSE {r \in ways(ObsChords(e) \X ObsChords(e)) : Kept(d, r.gs) = <<>>}
             best == IF fit # {} THEN fit ELSE IF lost # {} THEN lost ELSE R
         IN IF best = {} THEN [gs |-> <<>>, idx |-> <<{-7}>>]
            ELSE LET r == CHOOSE r \in best : TRUE
                 IN PerFile(Tail(fs), d, e, [gs |-> acc.gs \o Kept(d, r.gs), idx |-> r.idx])
Content(d, e) ==                                                 \* [gs, idx] of the collection opened
    IF e.mode = "whole" THEN PerFile(d.files, d, e, [gs |-> <<>>, idx |-> <<>>])
    ELSE LET R == {[gs |-> Kept(d, r.gs), idx |-> r.idx] : r \in Each(AllTracks(d), As(d, e, 0), FALSE, ObsChords(e), {[gs |-> <<>>, idx |-> <<>>]})}
             fit == {r \in R : Len(r.gs) = Len(e.x.graphs) /\ Range(r.idx) = Range(Published(e)) /\ \A i \in DOMAIN r.gs : AbsEdges(r.gs[i]) = ObsEdges(e, e.x.graphs[i])}
         IN IF fit # {} THEN CHOOSE r \in fit : TRUE ELSE IF R # {} THEN CHOOSE r \in R : TRUE ELSE [gs |-> <<>>, idx |-> <<{-7}>>]

-----------------------------------------------------------------------------
(* Masks: sizes allowed for a part of n nodes; a ratio that no binary number *)
(* holds exactly may lose the node that an exact product would give          *)
Exact(r) == r[2] \in {1, 2, 4, 8, 16}
Sizes(r, n) == LET k == (r[1] * n) \div r[2] IN IF ~Exact(r) /\ (r[1] * n) % r[2] = 0 /\ k > 0 THEN {k, k - 1} ELSE {k}
Ones(m) == Cardinality({i \in DOMAIN m : m[i] = 1})
MasksOk(d, g) ==
    LET n == Len(g.nodes)
    IN IF ~d.split THEN g.tr = <<>> /\ g.va = <<>> /\ g.te = <<>>
       ELSE /\ Len(g.tr) = n /\ Len(g.va) = n /\ Len(g.te) = n
            /\ \A i \in 1..n : g.tr[i] \in {0, 1} /\ g.va[i] \in {0, 1} /\ g.te[i] \in {0, 1} /\ g.tr[i] + g.va[i] + g.te[i] = 1
            /\ Ones(g.tr) \in Sizes(d.tr, n) /\ Ones(g.va) \in Sizes(d.va, n)
LabelsOk(e, d, c) ==
    LET idx == Published(e)
        G == e.x.graphs
    IN CASE ~MapsOk(e, idx) -> "mappings are not inverse to each other"
         [] \E i \in DOMAIN G : Len(G[i].y) # Len(G[i].nodes) -> "number of labels"
         [] \E i \in DOMAIN G : \E j \in DOMAIN G[i].y : G[i].y[j] \notin DOMAIN idx \/ idx[G[i].y[j]] # NameOf(e, G[i].nodes[j].nh) -> "labels"
         [] \E i \in DOMAIN G : \E j \in DOMAIN G[i].nodes :
               LET row == G[i].nodes[j].x[1] ch == NameOf(e, G[i].nodes[j].nh) k == Cardinality(ch)
               IN Len(row) # e.feat \/ ~Padded(row, k) \/ {row[z] : z \in 1..(IF k > Len(row) THEN Len(row) ELSE k)} # ch -> "features do not hold the pitches of the label"
         [] e.x.total # Len(idx) \/ Range(idx) # Range(c.idx) -> "classes are not the distinct chords"
         [] \E i \in DOMAIN G : G[i].label # IF d.remove THEN <<-1>> ELSE G[i].y -> "label lists"
         [] e.x.stats # <<FoldLeft(LAMBDA a, g : a + Len(g.nodes), 0, G), FoldLeft(LAMBDA a, g : a + Len(g.edges), 0, G),
                          FoldLeft(LAMBDA a, g : a + Cardinality(Range(g.y)), 0, G)>> -> "statistics"
         [] OTHER -> "ok"
ContentOk(e, d, c) ==
    LET G == e.x.graphs
    IN CASE Len(G) # Len(c.gs) -> "number of graphs stored"
         [] \E i \in DOMAIN G : ~G[i].ok -> "an edge refers to no node"
         [] \E i \in DOMAIN G : ~NodesOk(e, G[i], c.gs[i]) \/ ObsEdges(e, G[i]) # AbsEdges(c.gs[i]) \/ Len(G[i].edges) # Cardinality(DOMAIN c.gs[i].w) -> "graphs stored are not those of the files"
         [] \E i \in DOMAIN G : \E j \in DOMAIN G[i].nodes : ~FeatureOk(e, G[i].nodes[j], c.gs[i], e.vel, e.feat) -> "features stored"
         [] \E i \in DOMAIN G : G[i].mark # IF d.pre = 1 THEN <<1, Len(G[i].nodes), Ones(G[i].tr)>> ELSE <<>> -> "pre-transform"
         [] \E i \in DOMAIN G : G[i].seen # IF e.tf = 1 THEN <<1, Len(G[i].nodes)>> ELSE <<>> -> "transform"
         [] ~e.x.caller -> "the caller's list of files was changed"
         [] OTHER -> "ok"
Before(d, e) == IF e.mode = "whole" THEN d.whole ELSE d.per

Fill(s, e, n) == IF Stored(s, e) = {} THEN Append(s, n) ELSE [s EXCEPT ![CHOOSE i \in Stored(s, e) : TRUE] = n]
Witnessed(d, e) == LET z == <<[graphs |-> e.x.graphs, maps |-> e.x.maps]>> IN IF e.mode = "whole" THEN [d EXCEPT !.whole = z] ELSE [d EXCEPT !.per = z]
Verdict(d, e) ==
    IF e.x.res # "ok" THEN "opening failed"
    ELSE IF Focus = "masks" THEN IF \E i \in DOMAIN e.x.graphs : ~MasksOk(d, e.x.graphs[i]) THEN "masks" ELSE "ok"
    ELSE LET c == Content(d, e)
         IN IF Focus = "labels" THEN LabelsOk(e, d, c)
            ELSE IF Before(d, e) # <<>> /\ Before(d, e)[1] # [graphs |-> e.x.graphs, maps |-> e.x.maps] THEN "opened again, the dataset differs"
            ELSE IF Focus = "deaths" /\ \E i \in DOMAIN e.x.graphs : ~MasksOk(d, e.x.graphs[i]) THEN "masks"
            ELSE ContentOk(e, d, c)
DStart0 == <<>>
DStart(t) == DStart0
DStep(s, e) ==
    CASE e.op = "open" ->
           LET D == Held(s, e)
               V == [d \in D |-> Verdict(d, e)]
               fit == {d \in D : V[d] = "ok"}
           IN IF fit = {} THEN [st |-> s, res |-> V[CHOOSE d \in D : TRUE]]
              ELSE [st |-> Fill(s, e, [key |-> Key2(e), ds |-> {Witnessed(d, e) : d \in fit}, sure |-> TRUE]), res |-> "ok"]
      [] e.op = "die" -> [st |-> IF Stored(s, e) = {} THEN Append(s, [key |-> Key2(e), ds |-> {Fresh(e)}, sure |-> FALSE])
                                 ELSE IF s[CHOOSE i \in Stored(s, e) : TRUE].sure THEN s
                                 ELSE Fill(s, e, [key |-> Key2(e), ds |-> Held(s, e), sure |-> FALSE]), res |-> "ok"]
      [] OTHER -> [st |-> s, res |-> <<>>]
DJudge(s, e, r) ==
    CASE e.op = "open" -> r.res
      [] e.op = "refuse" -> IF e.x.res # "raise" THEN "invalid parameters accepted" ELSE IF e.x.wrote THEN "something was written" ELSE "ok"
      [] OTHER -> "ok"
=============================================================================
