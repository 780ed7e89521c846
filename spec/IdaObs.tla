------------------------------- MODULE IdaObs -------------------------------
(* Judges recorded integrations with the properties of IdaMon.  Traces is a   *)
(* sequence of runs, each the whole life of one integrator; the initial state *)
(* picks a run, each step consumes one event.                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, m
vars == <<tid, l, m>>
INSTANCE IdaMon WITH Trace <- Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ m = MInit

Next == /\ l <= Len(Traces[tid].ev)
        /\ m' = MStep(m, Traces[tid].ev[l])
        /\ l' = l + 1
        /\ tid' = tid

Spec == Init /\ [][Next]_vars

\* The verdict: each property is reported at the first event of the run that contradicts it.
CONSTANT Props
Fresh == (m'.bad \ m.bad) \cap Props
Judge == Next /\ \A p \in Fresh : PrintT(<<"BAD", p, Traces[tid].id, l>>)
JudgeSpec == Init /\ [][Judge]_vars

Holds == m.bad \cap Props = {}
=============================================================================
