----------------------------- MODULE NewtonObs -----------------------------
(* Judges recorded executions of nonlinear::Newton with the properties of    *)
(* NewtonMon.  Traces is a sequence of sessions, each the whole life of one   *)
(* solver; the initial state picks a session, each step consumes one event.  *)
EXTENDS Num, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VAddF(prec, u, v) ==
  [i \in 1..Len(u) |-> IF prec = 32 THEN F32Round(FAdd(u[i], v[i])) ELSE FAdd(u[i], v[i])]
VNegF(u) == [i \in 1..Len(u) |-> FNeg(u[i])]
VEqF(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FEq(u[i], v[i])

INSTANCE NewtonMon WITH VAdd <- VAddF, VNeg <- VNegF, VEq <- VEqF

VARIABLES tid, l, m
vars == <<tid, l, m>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ m = MInit(Traces[tid].maxit, Traces[tid].prec)

Next == /\ l <= Len(Traces[tid].ev)
        /\ m' = MStep(m, Traces[tid].ev[l])
        /\ l' = l + 1
        /\ tid' = tid

Spec == Init /\ [][Next]_vars

Report(p) == p \in m.bad => PrintT(<<"BAD", p, Traces[tid].id, l - 1>>) /\ FALSE
N01 == Report("N01")
N02 == Report("N02")
N03 == Report("N03")
N04 == Report("N04")
N05 == Report("N05")
N06 == Report("N06")
N07 == Report("N07")
=============================================================================
