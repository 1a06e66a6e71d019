------------------------------- MODULE Files --------------------------------
(* What MidiReader.write does to files.  files[p] is what lies at path p:     *)
(* 0 nothing, 1 and 2 the pieces written, 3 a file of someone else's.         *)
(* Paths 1 and 2 are ordinary; 3 is a folder, 4 lies in a missing folder.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pieces == {1, 2}
Usable == {1, 2}
Ans(s, r) == [st |-> s, res |-> r]
GoodBounds(b) == b = "none"
Allowed(s, e) ==
    /\ e.seq \in {"1", "2"}
    /\ e.name = "path"
    /\ e.bounds = "none"
    /\ e.p \in Usable
    /\ (s[e.p] = 0 \/ e.over = "yes")
Content(e) == IF e.seq = "1" THEN 1 ELSE 2
GStep(s, e) ==
    CASE e.op = "write" -> IF Allowed(s, e) THEN Ans([s EXCEPT ![e.p] = Content(e)], "ok") ELSE Ans(s, "raise")
      [] e.op = "put" -> Ans([s EXCEPT ![e.p] = 3], "ok")
      [] e.op = "del" -> Ans([s EXCEPT ![e.p] = 0], "ok")
(* extra: anything else that appeared in the folder *)
GExpect(s, e, r) == [res |-> r.res, files |-> r.st, extra |-> 0]
GJudge(s, e, r) ==
    CASE e.x.files # r.st -> "files after " \o e.op
      [] e.x.res # r.res -> "outcome of " \o e.op
      [] e.x.extra # 0 -> "other files appeared"
      [] OTHER -> "ok"
GStart0 == <<0, 0>>
GStart(t) == GStart0

Overs == {"no", "none", "zero", "yes"}
BadSeqs == {"nothing", "text", "onetrack", "empty", "unstorable"}
BadNames == {"blank", "number", "nothing", "bytes"}
BadBounds == {"startneg", "endneg", "starttext", "endtext", "crossed", "crossedzero", "startlist"}
Write(p, o, q, n, b) == [op |-> "write", p |-> p, over |-> o, seq |-> q, name |-> n, bounds |-> b]
GCmds(s) == {Write(p, o, q, "path", "none") : p \in 1..4, o \in Overs, q \in {"1", "2"}}
       \cup {Write(p, o, q, "path", "none") : p \in {1, 2}, o \in {"no", "yes"}, q \in BadSeqs}
       \cup {Write(p, o, "1", n, "none") : p \in {1}, o \in {"no", "yes"}, n \in BadNames}
       \cup {Write(p, o, "2", "path", b) : p \in {1, 2}, o \in {"no", "yes"}, b \in BadBounds}
       \cup {[op |-> "put", p |-> p] : p \in {1, 2}} \cup {[op |-> "del", p |-> p] : p \in {x \in {1, 2} : s[x] # 0}}
(* unasked, nothing that exists changes *)
NoClobber == \A e \in GCmds(<<0, 0>>) \cup GCmds(<<3, 3>>) : \A f \in {<<a, b>> : a \in 0..3, b \in 0..3} :
    e.op = "write" => LET r == GStep(f, e) IN
      /\ (e.over # "yes" => \A p \in 1..2 : f[p] # 0 => r.st[p] = f[p])
      /\ (r.res = "raise" => r.st = f)
==============================================================================
