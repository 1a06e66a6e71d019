----------------------------- MODULE MapperGen -----------------------------
EXTENDS GenBase, Mapper
CONSTANTS Hs
MCmds(s) == [op : {"add", "index"}, m : {1, 2}, h : Hs] \cup [op : {"merge"}, m : {1, 2}, o : {1, 2}]
            \cup [op : {"hash"}, m : {1, 2}, i : 0..3]
MStart0 == MStart(<<>>)
Injective == \A m \in DOMAIN st : \A i, j \in DOMAIN st[m] : st[m][i] = st[m][j] => i = j
NeverRenumber == \A e \in MCmds(st) : \A m \in DOMAIN st :
    LET n == MStep(st, e).st[m] IN Len(n) >= Len(st[m]) /\ SubSeq(n, 1, Len(st[m])) = st[m]
OnlyTarget == \A e \in MCmds(st) : \A m \in DOMAIN st : m # e.m => MStep(st, e).st[m] = st[m]
Idempotent == \A m \in {1, 2} : \A h \in Known(st[m]) : MStep(st, [op |-> "add", m |-> m, h |-> h]).st = st
============================================================================
