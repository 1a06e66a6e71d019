----------------------------- MODULE TheoryGen ------------------------------
(* Every question of the bounded domain, once.                               *)
EXTENDS Theory, Json
CONSTANTS Area
VARIABLE q
Scales == DOMAIN Steps
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
Questions ==
    CASE Area = "scales" ->
         {[op |-> o, root |-> r, scale |-> s, as |-> a] : o \in {"notes", "triads", "named"}, r \in Roots, s \in Scales, a \in {"text", "enum"}}
         \cup {[op |-> o, root |-> r, scale |-> "major", as |-> "text"] : o \in {"notes", "triads", "named"}, r \in BadRoots}
         \cup {[op |-> o, root |-> <<"int", 3>>, scale |-> "nowhere", as |-> "text"] : o \in {"notes", "triads", "named"}}
         \cup {[op |-> "pattern", scale |-> s, as |-> a] : s \in Scales, a \in {"text", "enum"}}
         \cup {[op |-> "pattern", scale |-> "nowhere", as |-> "text"]}
         \cup {[op |-> "note", k |-> k] : k \in 0..127}
      [] Area = "chords" ->
         {[op |-> o, chord |-> c] : o \in {"steps", "mapped", "roundtrip"}, c \in Chords} \cup {[op |-> "steps", chord |-> "nothing"]}
         \cup {[op |-> o, d |-> d, as |-> a] : o \in {"name", "name2"}, d \in {Diffs(Chord[c]) : c \in Chords} \cup SeqsUpTo({1, 2, 3, 4, 5}, 3) \cup {<<>>}, a \in {"list", "tuple"}}
         \cup {[op |-> "badname", how |-> h] : h \in {"text", "floats", "none", "strings"}}
         \cup {[op |-> "onscale", chord |-> c, root |-> <<"name", i>>] : c \in {"M", "m", "6", "7", "9"}, i \in 0..11}
         \cup {[op |-> "onscale", chord |-> "x", root |-> <<"name", 4>>]}
         \cup {[op |-> "pitches", root |-> r, iv |-> <<i>>, as |-> a] : r \in Roots, i \in DOMAIN IV, a \in {"text", "enum"}}
         \cup {[op |-> "pitches", root |-> r, iv |-> <<"P1", "m3", "P5">>, as |-> "text"] : r \in Roots \cup BadRoots}
         \cup {[op |-> "pitches", root |-> <<"int", 2>>, iv |-> <<"P1", "X3">>, as |-> "text"]}
         \cup {[op |-> o, k |-> k] : o \in {"split", "semitones"}, k \in -2..40}
         \cup {[op |-> "join", k |-> k, o |-> o] : k \in -1..13, o \in -1..4}
         \cup {[op |-> "add", a |-> a, b |-> b] : a \in 0..22, b \in 0..22}
         \cup {[op |-> o, k |-> k] : o \in {"bases", "inverse"}, k \in 0..22}
         \cup {[op |-> "value", iv |-> i] : i \in DOMAIN IV}
Init == q \in Questions /\ PrintT(ToJson(<<[e |-> q, x |-> Answer(q)]>>))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
(* laws the tables must obey *)
ASSUME  /\ \A s \in Scales : Sum(Steps[s]) = 12 /\ Cardinality(ToSet(Offsets(s))) = 7
        /\ \A s \in Scales : \A i \in 1..7 : Quality(Third(s, i)) \in {"maj", "min", "dim", "aug"}
        /\ \A s \in Scales : \A r \in 0..11 : \A i \in 1..7 : ToSet(Triad(r, s, i)) \subseteq ToSet(Scale(r, s)) /\ Triad(r, s, i)[1] = Scale(r, s)[i]
        /\ \A c, d \in Chords : Diffs(Chord[c]) = Diffs(Chord[d]) => c = d
=============================================================================
