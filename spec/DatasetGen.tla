----------------------------- MODULE DatasetGen -----------------------------
(* Histories of one root directory: every order of opening in either mode,   *)
(* with either setting, around the files being overwritten, refused requests *)
(* in between.  The files themselves are chosen by the harness.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Bad, Deaths      \* Deaths: what the process is writing when it dies
VARIABLES st, hist
Opens(s) == {[op |-> "open", mode |-> m, vel |-> v] : m \in {"per", "whole"}, v \in IF s.spoiled THEN s.done ELSE BOOLEAN}
Cs(s) == Opens(s) \cup (IF s.spoiled THEN {} ELSE {[op |-> "spoil"]}) \cup {[op |-> "refuse", how |-> b] : b \in Bad}
         \cup (IF s.spoiled THEN {} ELSE [op : {"die"}, mode : {"per", "whole"}, vel : BOOLEAN, during : Deaths])
Init == st = [done |-> {}, spoiled |-> FALSE, seen |-> {}, died |-> {}] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Cs(st) :
             /\ st' = [done |-> IF e.op = "open" THEN st.done \cup {e.vel} ELSE st.done, spoiled |-> st.spoiled \/ e.op = "spoil",
                       seen |-> IF e.op = "open" THEN st.seen \cup {<<e.mode, e.vel>>} ELSE st.seen,
                       died |-> IF e.op = "die" THEN st.died \cup {<<e.vel, e.during>>} ELSE st.died]
             /\ hist' = Append(hist, [e |-> e, x |-> "recorded"])
             /\ PrintT(ToJson(hist'))
Spec == Init /\ [][Next]_<<st, hist>>
View == st
OnlyProcessedSurvive == \A z \in st.seen : z[2] \in st.done
=============================================================================
