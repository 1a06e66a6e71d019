------------------------------ MODULE MCBase ------------------------------
(* Bounded model checking of a component: every command in every reachable *)
(* state within the constants.  Invariants of the component are listed in  *)
(* its cfg; those that speak about a step quantify over Cmds(st).          *)
EXTENDS Integers, Sequences
CONSTANTS Starts, Cmds(_), Step(_, _), Bound(_)
VARIABLE st
MCInit == st \in Starts
MCNext == \E e \in Cmds(st) : st' = Step(st, e).st
MCSpec == MCInit /\ [][MCNext]_st
MCBound == Bound(st)
===========================================================================
