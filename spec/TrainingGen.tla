---------------------------- MODULE TrainingGen -----------------------------
(* Lives of trainers in one folder: every order of training, saving, dying   *)
(* while saving or reporting, starting again and restoring, for two types of *)
(* model whose names begin alike, with epochs of one and two digits.         *)
EXTENDS Training, Json
CONSTANTS Depth, Epochs, Types, MaxCk
VARIABLES st, hist
Vals(k) == [i \in DOMAIN Parts[k] |-> Len(st.proc.L[Parts[k][1]]) + i]
Cs(s) ==
    LET t == s.proc.type
    IN IF t = "" THEN {[op |-> "start", type |-> y, every |-> 1, on |-> TRUE] : y \in Types}
       ELSE {[op |-> "start", type |-> y, every |-> 1, on |-> TRUE] : y \in Types}
         \cup {[op |-> "set", w |-> s.proc.w + 1, o |-> s.proc.o + 1]}
         \cup {[op |-> z, type |-> t, n |-> n] : z \in {"save", "die-saving"}, n \in Epochs}
         \cup {[op |-> z, part |-> "train", v |-> Vals("train")] : z \in {"report", "die-reporting"}}
         \cup {[op |-> "load", type |-> t]}
         \cup (IF s.proc.L["train_losses"] # <<>> THEN {[op |-> "clear"]} ELSE {})
Dies(e) == e.op \in {"die-saving", "die-reporting"}
(* a process that died is followed by a new one of either type *)
Next ==
    /\ Len(hist) < Depth
    /\ \E e \in Cs(st) :
         /\ hist # <<>> /\ Dies(hist[Len(hist)].e) => e.op = "start"
         /\ \E o \in Outcomes(st, e) :
              LET same == {q \in Outcomes(st, e) : q.proc = o.proc}
              IN st' = [proc |-> o.proc, disks |-> IF e.op = "load" THEN {q.disk : q \in {z \in same : TRUE}} ELSE {q.disk : q \in same}]
         /\ hist' = Append(hist, [e |-> e, x |-> "recorded"])
         /\ PrintT(ToJson(hist'))
Init == st = Train0 /\ hist = <<>>
Spec == Init /\ [][Next]_<<st, hist>>
Last == IF hist = <<>> THEN "none" ELSE hist[Len(hist)].e.op
View == <<st, Last \in {"die-saving", "die-reporting"}>>
Small == \A d \in st.disks : Cardinality(d.ck) <= MaxCk /\ st.proc.w <= 2 /\ Len(st.proc.L["train_losses"]) <= 1
-----------------------------------------------------------------------------
(* What all this is for: restoring finds the newest checkpoint whose saving  *)
(* was completed, unless a newer one was being saved when its process died;  *)
(* at most one checkpoint per type and epoch; the epochs go on after it.     *)
Saved == {[k |-> i, t |-> hist[i].e.type, n |-> hist[i].e.n, sure |-> hist[i].e.op = "save"] : i \in {j \in DOMAIN hist : hist[j].e.op \in {"save", "die-saving"}}}
Laws ==
    \A d \in st.disks :
      /\ \A c, b \in d.ck : (c[1] = b[1] /\ c[2] = b[2]) => c = b
      /\ \A z \in Saved : z.sure => \E c \in d.ck : c[1] = z.t /\ c[2] = z.n
      /\ \A c \in d.ck : \E z \in Saved : z.t = c[1] /\ z.n = c[2]
      /\ \A t \in Types : LET r == Restored(st.proc, d, t)
                          IN /\ Of(d, t) = {} => r = st.proc
                             /\ \A z \in Saved : (z.sure /\ z.t = t) => r.start > z.n
                             /\ Restored(r, d, t) = r
=============================================================================
