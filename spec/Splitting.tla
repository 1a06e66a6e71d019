----------------------------- MODULE Splitting ------------------------------
(* What a trainer is given (ngc_shared.py): the graphs of a dataset divided  *)
(* into those to train on and those to test on, a graph thinned out (some of *)
(* its nodes gone, Transforms!DropNodes), and the settings it accepts.       *)
(*                                                                           *)
(* The state is a graph; a split divides the graphs called e.ids.            *)
EXTENDS Transforms
Positive(v) == v.kind = "int" /\ v.n > 0
Good(e) == Positive(e.epochs) /\ Positive(e.batch) /\ e.ds = "dataset"
Parted(e, tr, te) ==
    CASE ~SameBag(tr \o te, e.ids) -> "the two parts are not the graphs of the dataset"
      [] Len(tr) \notin Floors(e.p, Len(e.ids)) -> "share of the training part"
      [] OTHER -> "ok"
(* all divisions of the rate can come out *)
AllParts(e) == LET S == {e.ids[i] : i \in DOMAIN e.ids} IN {Subsets(S, k) : k \in Floors(e.p, Len(e.ids))}
(* the share removed is given, not the share kept *)
AllThin(g, e) == {Subsets(Ids(g), N(g) - k) : k \in Floors(e.p, N(g))}
SStep(s, e) == [st |-> IF e.op = "thin" /\ e.x.out = "ok" THEN e.x.g ELSE s, res |-> <<>>]
SJudge(s, e, r) ==
    CASE e.op = "make" -> IF (e.x.out = "ok") = Good(e) THEN "ok" ELSE IF Good(e) THEN "good settings refused" ELSE "bad settings accepted"
      [] e.x.out # "ok" -> "failed: " \o e.op
      [] e.op = "thin" -> IF e.x.before # s THEN "the graph given was changed" ELSE DropNodes(s, e.x.g, e.p)
      [] e.op = "split" -> IF e.x.before # e.ids THEN "the dataset was changed" ELSE Parted(e, e.x.train, e.x.test)
      [] e.op = "all-parts" -> IF Drawn(e) \in AllParts(e) THEN "ok" ELSE "not every division is drawn, or others are"
      [] e.op = "all-thin" -> IF Drawn(e) \in AllThin(s, e) THEN "ok" ELSE "not every thinning is drawn, or others are"
=============================================================================
