-------------------------- MODULE SortedMapTrace --------------------------
EXTENDS TraceBase, FiniteSets, SequencesExt
IntLess(a, b) == a < b
PairLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
CONSTANT Less(_, _)
S == INSTANCE SortedMap
SStep(s, e) == S!MapStep(s, e)
SJudge(s, e, r) == S!MapJudge(s, e, r)
SStart(t) == S!MapStart(t)
===========================================================================
