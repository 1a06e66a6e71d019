----------------------------- MODULE GenBase -----------------------------
(* Behaviour generation, shared by every component.                       *)
(* Explores the component's state graph breadth first (the history is     *)
(* hidden from the fingerprint by VIEW) and prints, for every transition  *)
(* of the graph, a shortest behaviour that ends with it: the commands and *)
(* what the specification answers to each.  The harness replays them into *)
(* the real code, so every transition of the bounded model is exercised   *)
(* against the implementation once.  The two fingerprints of the state    *)
(* reached let the harness walk the same graph in other ways: long random *)
(* walks that ask the same question before and after every change.        *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json

CONSTANTS Depth, Start0, Cmds(_), Step(_, _), Expect(_, _, _)
VARIABLES st, hist

Line(h, s) == PrintT(ToJson(<<h, TLCFP(<<1, s>>), TLCFP(<<s, 2>>)>>))
GenInit == st = Start0 /\ hist = <<>> /\ Line(<<>>, Start0)
GenNext ==
    /\ Len(hist) < Depth
    /\ \E e \in Cmds(st) :
         LET r == Step(st, e)
             h == Append(hist, [e |-> e, x |-> Expect(st, e, r)])
         IN  /\ st' = r.st
             /\ hist' = h
             /\ Line(h, r.st)
GenSpec == GenInit /\ [][GenNext]_<<st, hist>>
GenView == st
===========================================================================
