------------------------------- MODULE TreeGen -------------------------------
EXTENDS GenBase, Tree
CONSTANTS Points, Data, MaxSize, Both
Ivs == {i \in [b : Points, e : Points, d : Data] : i.b < i.e}
NoneOrTwo == {-1, 2}
Top == Greatest(Points)
Q(k, T) ==
    [op : {"add"}, k : {k}, i : IF Cardinality(T) < MaxSize THEN Ivs \cup {Iv(1, 1, 0)} ELSE T]
    \cup [op : {"remove", "discard"}, k : {k}, i : T \cup {CHOOSE i \in Ivs \cup {Iv(-2, -1, 0)} : i \notin T}]
    \cup {[op |-> "probe", k |-> k, ps |-> [i \in 1..(Top + 3) |-> i - 2]], [op |-> "about", k |-> k]}
    \cup [op : {"overlap", "envelop", "any", "cutover", "cutenvelop"}, k : {k}, b : Points, e : Points \cup {Top + 1}]
    \cup [op : {"in"}, k : {k}, i : Ivs]
    \cup {z \in [op : {"chop"}, k : {k}, b : Points, e : Points \cup {Top + 1}, f : {0, 1}] : z.b < z.e /\ Cardinality(T) < MaxSize}
    \cup (IF Cardinality(T) < MaxSize THEN [op : {"slice"}, k : {k}, p : Points, f : {0, 1}] \cup {[op |-> "split", k |-> k]} ELSE {})
    \cup [op : {"overlaps"}, k : {k}, strict : {0, 1}, g : {0, 1}, init : {-1, 7}]
    \cup [op : {"equals"}, k : {k}, g : {0, 1}, init : {-1, 7}]
    \cup [op : {"neighbors"}, k : {k}, dist : {0, 1}, strict : {0, 1}, g : {0, 1}, init : {-1, 7}]
    \cup (IF TwinRanges(T) THEN {} ELSE {[op |-> "nested", k |-> k]})
    \cup {[op |-> "clear", k |-> k]}
Two(s) == IF ~Both THEN {}
    ELSE [op : {"copy"}, k : {1, 2}, to : {1, 2}] \cup [op : {"algebra"}, k : {1, 2}, j : {1, 2}, to : {1, 2}, how : {"union", "intersection", "difference", "symmetric"}]
         \cup {z \in [op : {"inplace"}, k : {1, 2}, j : {1, 2}, how : {"union", "intersection", "difference", "symmetric"}] : z.k # z.j}
         \cup [op : {"compare"}, k : {1, 2}, j : {1, 2}]
         \cup [op : {"add"}, k : {2}, i : Ivs]
GCmds(s) == {z \in Q(1, s[1]) \cup Two(s) : IF "init" \in DOMAIN z THEN z.g = 1 \/ z.init = -1 ELSE TRUE}
Pairs == {[op |-> "pair", i |-> i, j |-> j, p |-> p] : i \in Ivs, j \in Ivs, p \in Points}
PairCmds(s) == Pairs
Sound == NoNull(st) /\ (Cardinality(st[1]) <= 3 => Laws(st))
=============================================================================
