--------------------------- MODULE SortedMapGen ---------------------------
EXTENDS GenBase, FiniteSets, SequencesExt
CONSTANTS Less(_, _), Ks, Vs
IntLess(a, b) == a < b
PairLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
S == INSTANCE SortedMap
SStep(s, e) == S!MapStep(s, e)
SExpect(s, e, r) == S!MapExpect(s, e, r)
SStart == S!MapStart(<<>>)
IntKeys == {1, 2, 3}
SInvSafe == /\ S!Ascending(st.cur) /\ S!Ascending(st.oth) /\ S!Complete(st.cur)
(* a rejected operation changes nothing; a copy is never changed by work on the other *)
SInvStep == \A e \in Cmds(st) : LET r == S!MapStep(st, e) IN
              /\ r.res = <<"KeyError">> => r.st = st
              /\ e.op \notin {"copy", "swap"} => r.st.oth = st.oth
              /\ e.op \in {"get", "getdef", "range"} => r.st = st
SCmds(s) ==
    [op : {"set", "setdefault", "popdef"}, k : Ks, v : Vs]
    \cup [op : {"del", "pop", "get"}, k : Ks]
    \cup [op : {"popitem"}, last : {0, 1}]
    \cup [op : {"update"}, ps : {<<<<a, 7>>, <<b, 8>>>> : a, b \in Ks}]
    \cup [op : {"new"}, ps : {<<<<a, 5>>, <<b, 6>>>> : a, b \in Ks}]
    \cup [op : {"clear", "copy", "swap"}]
ICmds(s) ==
    [op : {"set", "setdefault"}, k : Ks, v : Vs]
    \cup [op : {"del", "pop", "get"}, k : Ks]
    \cup [op : {"popitem"}, last : {0}]
    \cup [op : {"new"}, ps : {<<<<a, 5>>, <<b, 6>>>> : a, b \in Ks}]
    \cup [op : {"range"}, a : {-9999, 0, 1, 2, 3, 4, 5}, b : {9999, 0, 1, 2, 3, 4, 5}]
    \cup [op : {"bad"}, how : {"set", "get", "del"}]
    \cup [op : {"clear"}]
    \cup {[op |-> "delpos", a |-> 0, b |-> 1], [op |-> "delpos", a |-> 1, b |-> 3]}
IvKeys == {<<0, 4>>, <<1, 1>>, <<1, 3>>, <<3, 5>>}
===========================================================================
