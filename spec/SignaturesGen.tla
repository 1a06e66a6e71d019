--------------------------- MODULE SignaturesGen ----------------------------
EXTENDS GenBase, Signatures
CONSTANTS Times, MaxLen, Kinds
Val(k, n) == CASE k = "ts" -> <<(n % 5) + 2, 8>> [] k = "ks" -> <<n % 2, n % 12>> [] k = "te" -> <<60 + n, 220>>
Sig(k, t, n) == [t |-> t, a |-> Val(k, n)[1], b |-> Val(k, n)[2]]
GCmds(s) == UNION {
      {[op |-> "add", k |-> p, kind |-> k, v |-> Sig(k, t, Len(s[p][k]) + 3 * p)] : p \in {1}, t \in IF Len(s[1][k]) < MaxLen THEN Times ELSE {}}
      \cup {[op |-> "ask", k |-> 1, kind |-> k, t |-> t] : t \in Times}
      \cup (IF s[1][k] = <<>> THEN {} ELSE {[op |-> "upto", k |-> 1, kind |-> k, t |-> t] : t \in {-1} \cup Times})
      \cup {[op |-> "loose", k |-> 1, kind |-> k, t |-> 20, sort |-> b, l |-> <<Sig(k, x[1], 1), Sig(k, x[2], 2), Sig(k, x[3], 3)>>] : b \in BOOLEAN, x \in {<<0, 20, 10>>, <<20, 10, 0>>, <<10, 30, 20>>}}
      : k \in Kinds}
   \cup (IF "te" \in Kinds THEN {[op |-> "initial", k |-> 1]}
           \cup {[op |-> "ofseq", k |-> 1, kind |-> "te", l |-> l] : l \in {<<>>, <<Sig("te", 0, 1), Sig("te", 20, 2)>>, <<Sig("te", 10, 1), Sig("te", 20, 2)>>}} ELSE {})
   \cup {[op |-> "piece", k |-> 1, l |-> [ts |-> <<>>, ks |-> <<>>, te |-> <<>>]]}
Laws == AllOrdered(st) /\ \A k \in Kinds, t \in Times : LastWins(st[1][k], Sig(k, t, 9)) /\ ElseKept(st[1][k], Sig(k, t, 9), Times)
==============================================================================
