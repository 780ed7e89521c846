------------------------------ MODULE DenseObs ------------------------------
(* Judges recorded sessions of linear::Dense.  A session is the life of one  *)
(* solver: setups and solves.  Numbers are rationals (exact scalar) or bit   *)
(* patterns of doubles (single and double precision).                        *)
(*   [e|->"setup", A, LU, out, col, frame, fLU, fout, fcol]                  *)
(*        f..: the same setup on a newly created solver                      *)
(*        frame: memory around the matrix argument untouched                 *)
(*   [e|->"solve", b, x, b2, LU2, alt, fx]                                   *)
(*        b2, LU2: arguments after the call;  alt: the same solve repeated   *)
(*        with other output contents and tolerance;  fx: the same solve as   *)
(*        the first one on a newly created solver with the same matrix       *)
EXTENDS DenseProps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, a     \* a: index of the setup event in force, 0 if none
vars == <<tid, l, a>>

T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ a = 0
Next == /\ l <= Len(T.ev)
        /\ a' = IF T.ev[l].e = "setup" THEN l ELSE a
        /\ l' = l + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars

\* numbers of this session as rationals
Exact == T.u = "0/1"
Fin(v)  == Exact \/ \A i \in 1..Len(v) : FIsFinite(v[i])
MFin(m) == \A i \in 1..Len(m) : Fin(m[i])
Rv(v) == IF Exact THEN v ELSE Force([i \in 1..Len(v) |-> RofF(v[i])])
Rm(m) == IF Exact THEN m ELSE Force([i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> RofF(m[i][j])]])

E == T.ev[l - 1]          \* the event just consumed
S == T.ev[a]              \* the setup in force
Seen(k) == l > 1 /\ E.e = k
Normal == {"ok", "fail"}

Bad01 ==
  \/ Seen("setup") /\ E.out \notin Normal
  \/ Seen("solve") /\ (E.out # "ok" \/ ~Fin(E.x))
  \/ Seen("solve") /\ E.out = "ok" /\ Fin(E.x) /\ MFin(S.LU)
       /\ ~Solves(Rm(S.A), Rm(S.LU), Rv(E.x), Rv(E.b), T.u)
Bad02 ==
  /\ Seen("setup") /\ E.out = "ok"
  /\ \/ E.frame # "ok"
     \/ ~MFin(E.LU)
     \/ ~IsFactorization(Rm(E.A), Rm(E.LU), T.u)
\* with rounding, singularity is judged only where elimination is exact (T.judge)
Bad03 ==
  /\ Seen("setup")
  /\ \/ E.out \notin Normal
     \/ T.judge /\ ~SetupAnswerOK(Rm(E.A), E.out, E.col)
Bad04 ==
  /\ Seen("solve") /\ E.out = "ok"
  /\ \/ E.b2 # E.b \/ E.LU2 # S.LU \/ E.alt # E.x \/ E.solo # E.x
     \/ \E j \in (a + 1)..(l - 2) : T.ev[j].b = E.b /\ T.ev[j].x # E.x
Bad05 ==
  \/ Seen("setup") /\ (E.out # E.fout \/ E.col # E.fcol \/ (E.out = "ok" /\ E.LU # E.fLU))
  \/ Seen("solve") /\ (E.out # E.fout \/ E.x # E.fx)

Report(p, bad) == bad => PrintT(<<"BAD", p, T.id, l - 1>>) /\ FALSE
L01 == Report("L01", Bad01)
L02 == Report("L02", Bad02)
L03 == Report("L03", Bad03)
L04 == Report("L04", Bad04)
L05 == Report("L05", Bad05)
=============================================================================
