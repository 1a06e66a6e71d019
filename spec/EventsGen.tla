------------------------------ MODULE EventsGen ------------------------------
EXTENDS GenBase, Events
CONSTANTS Kinds, MaxLen, Rich
X0(k) == [k |-> k, bad |-> 0]
CC == [n |-> 7, v |-> 100, t |-> 4000, pr |-> 3, ins |-> 2, dr |-> 0, st |-> 8, qs |-> -1, qe |-> -1] @@ X0("cc")
PB == [a |-> 100, t |-> 4000, pr |-> 3, ins |-> 2, dr |-> 0] @@ X0("pb")
TE == [t |-> 4000, q2 |-> 241, res |-> 220] @@ X0("te")
TS == [t |-> 4000, nu |-> 6, de |-> 8] @@ X0("ts")
KS == [t |-> 4000, key |-> 3, mode |-> 1] @@ X0("ks")
INS == [i |-> 9, name |-> "x", dr |-> 0] @@ X0("in")
With(a, f, S) == {[a EXCEPT ![f] = v] : v \in S}
Edge == {-5, -1, 0, 1, 127, 128, 255, 256, 999}
News(k) ==
    CASE k = "cc" -> {CC} \cup With(CC, "n", {8}) \cup With(CC, "v", {-3, 0, 127}) \cup With(CC, "t", {-4000, 0, 4125}) \cup With(CC, "pr", {4}) \cup With(CC, "ins", {1})
                     \cup With(CC, "dr", {1}) \cup With(CC, "st", {0, 9, 33}) \cup {[CC EXCEPT !.qs = 1, !.qe = 3]} \cup {[CC EXCEPT !.qs = 1, !.qe = 4]} \cup {[CC EXCEPT !.qs = 2, !.qe = 3]}
                     \cup (IF Rich THEN UNION {With(CC, f, Edge) : f \in {"n", "v", "pr", "ins"}} ELSE {})
      [] k = "pb" -> {PB} \cup With(PB, "a", {-8193, -8192, 8191, 8192, 101}) \cup With(PB, "t", {-125, 0, 4125}) \cup With(PB, "pr", {-1, 4, 127, 128}) \cup With(PB, "ins", {-1, 1, 127, 128}) \cup With(PB, "dr", {1})
      [] k = "te" -> {TE} \cup With(TE, "t", {-125, 0, 4125}) \cup With(TE, "q2", {-240, 0, 1, 240}) \cup With(TE, "res", {-1, 0, 1, 480}) \cup With(TE, "bad", {1, 2, 3})
      [] k = "ts" -> {TS} \cup With(TS, "t", {0, 4125}) \cup With(TS, "nu", {-1, 0, 1, 7}) \cup With(TS, "de", {-4, -1, 0, 1, 2, 3, 6, 7, 12, 64, 96, 128}) \cup With(TS, "bad", {1, 2})
      [] k = "ks" -> {KS} \cup With(KS, "t", {0, 4125}) \cup With(KS, "key", {-7, 7, 0}) \cup With(KS, "mode", {-1, 0, 2})
      [] k = "in" -> {INS} \cup With(INS, "i", {-1, 0, 10, 255, 256}) \cup With(INS, "name", {"", "y", " "}) \cup With(INS, "dr", {1}) \cup With(INS, "bad", {1, 2, 3})
                     \cup (IF Rich THEN {[INS EXCEPT !.i = i, !.name = ""] : i \in 0..255} ELSE {[INS EXCEPT !.i = i, !.name = ""] : i \in {0, 1, 8, 9, 16, 17, 64, 65, 120, 121, 128, 129}})
      [] k = "base" -> {[n |-> n, d |-> d] @@ X0("base") : n \in {3, 4}, d \in {"x", "y"}}
Sets(s, i) ==
    LET o == s[i + 1]
        S(f, V) == [op : {"set"}, i : {i}, f : {f}, v : V]
    IN CASE o.k = "cc" -> S("seq", {0, 1}) \cup S("st", {0, 1, 32, 33}) \cup S("qe", {-1, 0, 2, 5}) \cup (IF o.qe >= 0 THEN S("qs", {-1, 0, 2, 5}) ELSE {})
         [] o.k = "pb" -> S("t", {-125, 0, 125}) \cup S("pr", {-1, 0, 127, 128}) \cup S("ins", {-1, 0, 127, 128})
         [] o.k \in {"te", "ts", "ks"} -> S("seq", {0, 1})
         [] OTHER -> {}
Asks(s, i) ==
    LET o == s[i + 1]
    IN {[op |-> "cmp", i |-> i, j |-> j, near |-> x] : j \in {j \in 0..(Len(s) - 1) : s[j + 1].k = o.k}, x \in IF o.k \in Timed /\ o.t > 0 THEN {0, 1} ELSE {0}}
       \cup (IF Ordered(o.k) THEN {[op |-> "sort", k |-> o.k]} ELSE {})
       \cup (IF o.k \in {"pb", "in"} \/ (o.k = "cc" /\ (OnGrid(o) \/ (o.qs < 0 /\ o.qe < 0))) THEN {[op |-> "derived", i |-> i]} ELSE {})
       \cup (IF o.k = "te" THEN {[op |-> "pace", i |-> i]} ELSE {})
       \cup (IF o.k = "cc" THEN [op : {"quantize"} \cup (IF Len(s) < MaxLen THEN {"quantized"} ELSE {}), i : {i}, sps : {0, 1, 4, 25, 32, 33, 100}, a4 : {1, 2, 4}] \cup [op : {"shift"}, i : {i}, d : {125}] ELSE {})
       \cup (IF o.k = "cc" /\ Len(s) < MaxLen THEN [op : {"copy"}, i : {i}, t : {-1, 0, 500}, qs : {-1, 0, 1}, qe : {-1, 9}] ELSE {})
       \cup (IF o.k = "in" /\ Len(s) < MaxLen THEN {[op |-> "dict", i |-> i]} ELSE {})
GCmds(s) ==
    (IF Len(s) < MaxLen THEN UNION {{[op |-> "new", a |-> a] : a \in News(k)} : k \in Kinds}
                             \cup [op : {"standard"}, k : Kinds \cap {"te", "ts", "ks", "cc", "pb"}] ELSE {})
    \cup (IF s = <<>> THEN (IF "cc" \in Kinds THEN {[op |-> "table"]} ELSE {}) \cup (IF "te" \in Kinds THEN [op : {"qpm"}, us : {250000, 300000, 400000, 500000, 600000, 750000, 1000000, 1200000}] ELSE {})
          ELSE UNION {Sets(s, i) \cup Asks(s, i) : i \in 0..(Len(s) - 1)})
Sound == (\A i \in DOMAIN st : Legal(st[i])) /\ StrictOrder(st)
=============================================================================
