------------------------------ MODULE WalkTrace ------------------------------
EXTENDS TraceBase
W == INSTANCE Walk
TStart(t) == W!WStart(t)
TStep(s, e) == W!WStep(s, e)
TJudge(s, e, r) == W!WJudge(s, e, r)
==============================================================================
