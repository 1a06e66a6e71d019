---------------------------- MODULE RetimingGen -----------------------------
(* Small files and every way to move them; the laws hold in every state.     *)
EXTENDS GenBase, Retiming
CONSTANTS Steps, MaxTick, Tempos, Sigs
Ts(s) == {t \in {s.r.now + d : d \in Steps} : t <= MaxTick}
Ways == {<<<<0, 48, 96>>, <<0, 100, 150>>>>, <<<<0, 96>>, <<0, 96>>>>, <<<<12, 60>>, <<0, 50>>>>, <<<<0, 24, 96>>, <<50, 50, 200>>>>, <<<<24, 48, 72, 96>>, <<25, 75, 75, 225>>>>, <<<<0, 96, 48, 96>>, <<0, 200, 75, 50>>>>, <<<<0, 24, 48, 96>>, <<50, 25, 100, 75>>>>}
TCmds(s) ==
    IF s.r.res # 24 THEN {[op |-> "file", res |-> 24]}
    ELSE IF s.r.tempo = <<[t |-> 0, q |-> 500]>> THEN {[op |-> "tempo", t |-> 0, q |-> q] : q \in Tempos}
    ELSE (IF s.r.open = <<>> THEN {[op |-> "on", t |-> t, c |-> 0, p |-> 60, v |-> 64] : t \in Ts(s)} ELSE {[op |-> "off", t |-> t, c |-> 0, p |-> 60, w |-> 0] : t \in Ts(s)})
         \cup UNION {{[op |-> "ts", t |-> t, a |-> g \div 100, b |-> g % 100] : g \in Sigs}
                \cup {[op |-> "tempo", t |-> t, q |-> q] : q \in Tempos} \cup {[op |-> "ks", t |-> t, a |-> 0, b |-> 7]}
                \cup (IF s.r.seqs = <<>> THEN {} ELSE {[op |-> "cc", t |-> t, c |-> 0, n |-> 7, v |-> s.r.now]}) : t \in Ts(s)}
         \cup {[op |-> "retime", t |-> MaxTick + 1, o |-> w[1], n |-> w[2]] : w \in Ways}
TExpect(s, e, r) == <<>>
Maps == {Map(st, Orderly([o |-> w[1], n |-> w[2]])) : w \in Ways}
NotBefore(f, g) == f[1] * g[2] >= g[1] * f[2]
Laws == st.r.tempo[1].q # 500 => \A a \in Maps :
          /\ \A k \in 0..(MaxTick \div 6) : NotBefore(Moved(a, T(st, 6 * k + 6)), Moved(a, T(st, 6 * k)))
          /\ \A i \in DOMAIN a.o : LET f == Moved(a, a.o[i]) IN f[1] = a.n[i] * f[2]
          /\ \A t \in {a.o[1], Last(a.o)} : ~(AtFirst(a, t) /\ AtLast(a, t))
          /\ \A i \in DOMAIN st.r.seqs : LET l == Staying(st, a, st.r.seqs[i].notes) IN
               \A j \in DOMAIN l : LET f == Moved(a, T(st, l[j].s)) g == Moved(a, T(st, l[j].e)) IN f[1] * g[2] < g[1] * f[2]
          /\ Len(Events(st, a, st.r.ts)) <= Len(st.r.ts)
=============================================================================
