------------------------------- MODULE Scoring -------------------------------
(* The node classifier's trainer (minimum_example_node_classification.py).   *)
(*                                                                           *)
(* A graph has nodes with a label each and one or two splits of its nodes    *)
(* into parts (training, validation, test), which may overlap or leave nodes *)
(* out.  One training step follows the slope of the loss on the training     *)
(* nodes of every split and nothing else; scoring counts, part by part, how  *)
(* many labels the model finds; a run trains on every graph, then scores     *)
(* every batch, epoch after epoch, and answers with the best scores it saw.  *)
(*                                                                           *)
(* The model under test is a table: its answers are known, so every number   *)
(* the trainer reports is a fraction of integers, and from a model that      *)
(* answers the same for every class, so is every slope.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Parts == <<"train", "val", "test">>

-----------------------------------------------------------------------------
(* Fractions <<n, d>> *)
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Red(n, d) == LET g == GCD(IF n < 0 THEN -n ELSE n, d) IN IF g = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
Plus(p, q) == Red(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
Over(p, k) == Red(p[1], p[2] * k)
Mean(s) == Over(FoldLeft(LAMBDA a, b : Plus(a, b), <<0, 1>>, s), Len(s))
Below(p, q) == p[1] * q[2] < q[1] * p[2]
Best(s) == FoldLeft(LAMBDA a, b : IF Below(a, b) THEN b ELSE a, <<0, 1>>, s)
(* a number seen, in parts of S, is this fraction *)
Is(v, S, p) == LET x == v * p[2] - p[1] * S IN x <= p[2] /\ -x <= p[2]

-----------------------------------------------------------------------------
(* a graph: [y |-> labels, m |-> <<split>>], split: [train |-> <<0/1>>, val, test] *)
In(mask) == {i \in DOMAIN mask : mask[i] = 1}
Score(g, pred, k, part) == LET M == In(g.m[k][part]) IN Red(Cardinality({i \in M : pred[i] = g.y[i]}), Cardinality(M))
(* what scoring a graph answers for a part: the mean over its splits *)
Scored(g, pred, part) == Mean([k \in DOMAIN g.m |-> Score(g, pred, k, part)])
(* the slope at node i for class c, from a model that gives all C classes the same *)
Slope(g, C, i, c) ==
    FoldLeft(LAMBDA a, b : Plus(a, b), <<0, 1>>,
             [k \in DOMAIN g.m |-> IF i \in In(g.m[k]["train"])
                                   THEN Over(Red((IF g.y[i] = c THEN C - 1 ELSE -1), C), Cardinality(In(g.m[k]["train"])))
                                   ELSE <<0, 1>>])
-----------------------------------------------------------------------------
(* graphs laid together, as a batch is *)
Together(gs) ==
    [y |-> FlattenSeq([i \in DOMAIN gs |-> gs[i].y]),
     m |-> [k \in DOMAIN gs[1].m |-> [p \in {"train", "val", "test"} |-> FlattenSeq([i \in DOMAIN gs |-> gs[i].m[k][p]])]]]
Cut(s, n) == [b \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (b - 1) * n + 1, IF b * n < Len(s) THEN b * n ELSE Len(s))]
(* the score of a part after epoch k: the mean over the batches; e.pred[k] are the model's answers for every graph *)
After(e, k, part) ==
    LET gs == Cut(e.graphs, e.size)
        ps == Cut(e.pred[k], e.size)
    IN  Mean([b \in DOMAIN gs |-> Scored(Together(gs[b]), FlattenSeq(ps[b]), part)])
Bests(e, part) == Best([k \in DOMAIN e.pred |-> After(e, k, part)])

S == 10000
CStart(t) == 0
CStep(s, e) == [st |-> s, res |-> 0]
CJudge(s, e, r) ==
    CASE e.x.out # "ok" -> "failed: " \o e.op
      [] e.op = "train" ->
            CASE e.x.steps # 1 -> "number of steps of the optimizer"
              [] ~e.x.mode -> "trained in the mode for scoring"
              [] \E i \in DOMAIN e.g.y : \E c \in 1..e.C :
                    i \notin UNION {In(e.g.m[k]["train"]) : k \in DOMAIN e.g.m} /\ e.x.slope[i][c] # 0 -> "learned from a node outside the training part"
              [] \E i \in DOMAIN e.g.y : \E c \in 1..e.C : ~Is(e.x.slope[i][c], S, Slope(e.g, e.C, i, c)) -> "slope"
              [] e.x.loss # e.x.flat -> "loss reported"
              [] OTHER -> "ok"
      [] e.op = "test" ->
            CASE e.x.mode -> "scored in the mode for training"
              [] e.x.steps # 0 \/ e.x.grad -> "learned while scoring"
              [] \E m \in {"acc", "f1", "precision", "recall"} : \E p \in 1..3 : ~Is(e.x[m][p], S, Scored(e.g, e.pred, Parts[p])) -> "score of a part"
              [] OTHER -> "ok"
      [] e.op = "run" ->
            CASE e.x.best # <<>> /\ ~(/\ Is(e.x.best[1], S, Bests(e, "test")) /\ Is(e.x.best[2], S, Bests(e, "val"))
                                      /\ Is(e.x.best[3], S, Bests(e, "test")) /\ Is(e.x.best[4], S, Bests(e, "val"))) -> "best scores"
              [] e.x.trained # [k \in DOMAIN e.pred |-> Len(Cut(e.graphs, e.size))] -> "steps in an epoch"
              [] e.x.seen # [k \in DOMAIN e.pred |-> [i \in DOMAIN e.graphs |-> 1]] -> "graphs trained on in an epoch"
              [] e.logged /\ e.x.epochs # [k \in DOMAIN e.pred |-> k] -> "epochs reported"
              [] e.logged /\ \E k \in DOMAIN e.pred : \E p \in 1..3 : \E m \in {"accuracy", "f1", "precision", "recall"} :
                    ~Is(e.x.log[k][m][p], S, After(e, k, Parts[p])) -> "scores reported"
              [] OTHER -> "ok"
=============================================================================
