------------------------------ MODULE Training ------------------------------
(* The trainers' common part (ngc_shared.py): metric histories, their files, *)
(* checkpoints, and taking up training again after the process has died at   *)
(* any point, also in the middle of writing a file.                          *)
(*                                                                           *)
(* proc: the process: type (of the model), w, o (parameters, optimizer), cur,*)
(*   start (epochs), every, on (when metrics are stored), L (the histories). *)
(* disks: what may be on disk: after a death during a write that is what was *)
(*   there before, or what was to be written.  A disk is [ck: checkpoints    *)
(*   <<type, epoch, w, o>>, mf: metric files (type, part) -> histories].     *)
(* What a process finds out about the disk settles the choice.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Parts == [train |-> <<"train_losses", "train_f1s", "train_accs", "train_recalls", "train_precisions">>,
          val |-> <<"val_accs", "val_f1s", "val_precisions", "val_recalls">>,
          test |-> <<"test_accs", "test_f1s", "test_precisions", "test_recalls", "test_aps", "test_aucs">>]
Range1(q) == {q[i] : i \in DOMAIN q}
Names == UNION {Range1(Parts[k]) : k \in DOMAIN Parts}
NoFiles == [x \in {} |-> <<>>]
Disk0 == [ck |-> {}, mf |-> NoFiles]
Fresh(type, every, on) == [type |-> type, w |-> 0, o |-> 0, cur |-> 0, start |-> 0, every |-> every, on |-> on, L |-> [x \in Names |-> <<>>]]
Train0 == [proc |-> Fresh("", 1, TRUE), disks |-> {Disk0}]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Part(p, k) == [x \in Range1(Parts[k]) |-> p.L[x]]
Due(p) == p.on /\ p.every # 0 /\ p.cur % p.every = 0
(* the checkpoint of a type and epoch is replaced by the new one *)
PutCk(d, t, n, w, o) == [d EXCEPT !.ck = {c \in @ : c[1] # t \/ c[2] # n} \cup {<<t, n, w, o>>}]
PutMf(d, p, k) == [d EXCEPT !.mf = Put(@, <<p.type, k>>, Part(p, k))]
(* -1 in e.v: no value reported *)
Report(p, e) == [p EXCEPT !.L = [x \in Names |-> IF \E i \in DOMAIN Parts[e.part] : Parts[e.part][i] = x /\ e.v[i] # -1
                                                  THEN Append(p.L[x], e.v[CHOOSE i \in DOMAIN Parts[e.part] : Parts[e.part][i] = x]) ELSE p.L[x]]]
Of(d, t) == {c \in d.ck : c[1] = t}
Latest(d, t) == CHOOSE c \in Of(d, t) : \A b \in Of(d, t) : b[2] <= c[2]
Restored(p, d, t) ==
    IF Of(d, t) = {} THEN p
    ELSE LET c == Latest(d, t)
             L1 == IF ~p.on THEN p.L
                   ELSE [x \in Names |-> IF \E k \in DOMAIN Parts : <<t, k>> \in DOMAIN d.mf /\ x \in Range1(Parts[k])
                                         THEN d.mf[<<t, CHOOSE k \in DOMAIN Parts : x \in Range1(Parts[k])>>][x] ELSE p.L[x]]
         IN [p EXCEPT !.w = c[3], !.o = c[4], !.cur = c[2] + 1, !.start = c[2] + 1, !.L = L1]
See(p) == [w |-> p.w, o |-> p.o, cur |-> p.cur, start |-> p.start, L |-> p.L]
(* [proc, disks] that are possible after e (before looking at the answer) *)
Outcomes(s, e) ==
    LET p == s.proc
        q == Report(p, e)
    IN CASE e.op = "start" -> {[proc |-> Fresh(e.type, e.every, e.on), disk |-> d] : d \in s.disks}
         [] e.op = "set" -> {[proc |-> [p EXCEPT !.w = e.w, !.o = e.o], disk |-> d] : d \in s.disks}
         [] e.op = "epoch" -> {[proc |-> [p EXCEPT !.cur = e.n], disk |-> d] : d \in s.disks}
         [] e.op = "save" -> {[proc |-> p, disk |-> PutCk(d, e.type, e.n, p.w, p.o)] : d \in s.disks}
         [] e.op = "die-saving" -> {[proc |-> p, disk |-> d] : d \in s.disks} \cup {[proc |-> p, disk |-> PutCk(d, e.type, e.n, p.w, p.o)] : d \in s.disks}
         [] e.op = "report" -> {[proc |-> q, disk |-> IF Due(p) THEN PutMf(d, q, e.part) ELSE d] : d \in s.disks}
         [] e.op = "die-reporting" -> {[proc |-> p, disk |-> d] : d \in s.disks}
                                      \cup {[proc |-> p, disk |-> IF Due(p) THEN PutMf(d, q, e.part) ELSE d] : d \in s.disks}
         [] e.op = "clear" -> {[proc |-> [p EXCEPT !.L = [x \in Names |-> <<>>]], disk |-> d] : d \in s.disks}
         [] e.op = "load" -> {[proc |-> Restored(p, d, e.type), disk |-> d] : d \in s.disks}
         [] OTHER -> {[proc |-> p, disk |-> d] : d \in s.disks}
Fits(s, e, o) ==
    CASE e.op \in {"die-saving", "die-reporting"} -> TRUE
      [] OTHER -> e.x.now = See(o.proc)
After(s, e) ==
    LET O == {o \in Outcomes(s, e) : Fits(s, e, o)}
    IN IF O = {} THEN s ELSE [proc |-> (CHOOSE o \in O : TRUE).proc, disks |-> {o.disk : o \in O}]
TStep(s, e) == [st |-> After(s, e), res |-> <<>>]
TJudge(s, e, r) ==
    CASE e.x.res # "ok" -> "failed: " \o e.op
      [] \E o \in Outcomes(s, e) : Fits(s, e, o) -> "ok"
      [] e.op = "load" -> IF \E d \in s.disks : LET g == See(Restored(s.proc, d, e.type)) IN [g EXCEPT !.L = e.x.now.L] = e.x.now
                          THEN "histories restored" ELSE "what was restored"
      [] OTHER -> "state of the process after " \o e.op
TStart(t) == Train0
=============================================================================
