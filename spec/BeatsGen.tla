------------------------------ MODULE BeatsGen ------------------------------
(* Small files: a few tempo and signature changes, one note that ends        *)
(* somewhere, and every question.  The laws are checked in every state.      *)
EXTENDS GenBase, Beats
CONSTANTS Steps, MaxTick, Sigs, Tempos, Starts
Ts(s) == {t \in {s.r.now + d : d \in Steps} : t <= MaxTick}
BCmds(s) ==
    IF s.r.res # 24 THEN {[op |-> "file", res |-> 24]}
    ELSE (IF s.r.open = <<>> THEN {[op |-> "on", t |-> s.r.now, c |-> 0, p |-> 60, v |-> 64]} ELSE {})
         \cup UNION {{[op |-> "ts", t |-> t, a |-> g \div 100, b |-> g % 100] : g \in Sigs}
                \cup {[op |-> "tempo", t |-> t, q |-> q] : q \in Tempos} : t \in Ts(s)}
         \cup {[op |-> o, t |-> MaxTick + d, start |-> f] : o \in {"beats", "bars"}, d \in {1, 31}, f \in Starts}
BExpect(s, e, r) == <<>>
Strict(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
Laws == \A f \in Starts : LET B == BeatsTo(st.r, f, MaxTick + 40) D == Bars(st.r, B) IN
          /\ Strict(B) /\ Strict(D) /\ B # <<>> /\ B[1] = f /\ D[1] = f
          /\ \A i \in DOMAIN D : D[i] \in {B[j] : j \in DOMAIN B}
          /\ \A i \in DOMAIN st.r.ts : st.r.ts[i].t > f => st.r.ts[i].t \in {D[j] : j \in DOMAIN D}
          /\ \A i \in 1..(Len(B) - 1) : B[i + 1] - B[i] <= BeatLen(st.r.res, At(st.r.ts, B[i]))
          /\ Strict(InTime(st.r, B))
=============================================================================
