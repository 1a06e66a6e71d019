---------------------------- MODULE TraceBase ----------------------------
(* Trace validation, shared by every component.                           *)
(* A component module supplies                                            *)
(*   Start(t)      the abstract state in which trace t begins             *)
(*   Step(s, e)    [st |-> next state, res |-> the answer the spec gives] *)
(*   Judge(s,e,r)  "ok", or the name of the first clause that the         *)
(*                 recorded event e violates, given r = Step(s, e)        *)
(* One TLC run validates every recorded trace: each is a branch of Init.  *)
(* The verdict is total: every trace prints exactly one VERDICT line.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Start(_), Step(_, _), Judge(_, _, _)
VARIABLES tr, pos, st, verdict

Traces == JsonDeserialize(IOEnv.TRACES)
tvars == <<tr, pos, st, verdict>>

TraceInit ==
    /\ tr \in DOMAIN Traces
    /\ pos = 1
    /\ verdict = "ok"
    /\ st = Start(Traces[tr])

TraceNext ==
    /\ verdict = "ok"
    /\ pos <= Len(Traces[tr].ev)
    /\ LET e == Traces[tr].ev[pos]
           r == Step(st, e)
           v == Judge(st, e, r)
       IN  /\ st' = r.st
           /\ verdict' = v
           /\ (v # "ok" \/ pos = Len(Traces[tr].ev))
                 => PrintT(<<"VERDICT", tr, pos, v>>)
    /\ pos' = pos + 1
    /\ UNCHANGED tr

TraceSpec == TraceInit /\ [][TraceNext]_tvars
===========================================================================
