---------------------------- MODULE IntervalGen ----------------------------
EXTENDS GenBase, Interval
CONSTANT N
Ivs == {<<a, b>> : a, b \in 0..N} \cap {p \in (0..N) \X (0..N) : p[1] <= p[2]}
ICmds(s) == [op : {"pair"}, a : Ivs, b : Ivs] \cup [op : {"member"}, a : Ivs, p : -1..(N+1)]
    \cup [op : {"stranger"}, a : {<<0, 0>>, <<1, 3>>}, w : {"tuple", "number", "text", "none", "slice", "likeness"}]
IStart0 == 0
(* the laws of the algebra, over all pairs and triples of the grid *)
Laws ==
  /\ \A a, b \in Ivs : /\ Meet(a, b) # {} <=> Meet(b, a) # {}
                       /\ Inter(a, b) # <<>> => Pts(Inter(a, b)) = Meet(a, b)
                       /\ Pts(a) \cup Pts(b) \subseteq Pts(Hull(a, b))
                       /\ \A c \in Ivs : (Pts(a) \cup Pts(b) \subseteq Pts(c)) => Pts(Hull(a, b)) \subseteq Pts(c)
                       /\ Cardinality({x \in {1, 2, 3} : (x = 1 /\ Lt(a, b)) \/ (x = 2 /\ Lt(b, a)) \/ (x = 3 /\ a = b)}) = 1
  /\ \A a, b, c \in Ivs : Lt(a, b) /\ Lt(b, c) => Lt(a, c)
============================================================================
