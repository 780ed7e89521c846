----------------------------- MODULE NewtonPair -----------------------------
(* N08: after any history ("pre") a solve on the reused solver ("reused")    *)
(* makes the same calls with the same arguments and returns the same result  *)
(* as the same solve on a new solver ("fresh"), both environments giving the *)
(* same answers.  Allowed differences: statistics continue; and when the     *)
(* Jacobian was left current by an earlier failed solve, the reused solver   *)
(* may return the recoverable failure where the fresh one retries.           *)
EXTENDS Num, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VEqF(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FEq(u[i], v[i])

VARIABLES tid, l, jcur, base, ok
vars == <<tid, l, jcur, base, ok>>

\* is the Jacobian current after the events of a history
RECURSIVE JcurAfter(_, _, _)
JcurAfter(evs, k, j) ==
  IF k > Len(evs) THEN j
  ELSE LET e == evs[k] IN
       JcurAfter(evs, k + 1,
         IF e.e = "setup" /\ e.out = "true" THEN TRUE
         ELSE IF e.e = "setup" /\ e.out = "false" THEN FALSE
         ELSE IF e.e = "end" /\ e.out = "ok" THEN FALSE ELSE j)

LastStats(evs) == IF evs = <<>> THEN <<0, 0>>
                  ELSE <<evs[Len(evs)].ni, evs[Len(evs)].nf>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ jcur = JcurAfter(Traces[tid].pre, 1, FALSE)
        /\ base = LastStats(Traces[tid].pre)
        /\ ok = TRUE

\* b's statistics are a's plus what the history had accumulated
Same(a, b) ==
  /\ a.e = b.e
  /\ a.e # "start" => a.out = b.out
  /\ CASE a.e = "start"  -> VEqF(a.y0, b.y0) /\ a.call = b.call
       [] a.e = "sys"    -> VEqF(a.y, b.y)
       [] a.e = "setup"  -> VEqF(a.y, b.y) /\ VEqF(a.f, b.f) /\ a.jbad = b.jbad
       [] a.e = "lsolve" -> VEqF(a.y, b.y) /\ VEqF(a.b, b.b)
       [] a.e = "ctest"  -> /\ VEqF(a.y, b.y) /\ VEqF(a.del, b.del) /\ a.tol = b.tol
                            /\ VEqF(a.w, b.w) /\ a.cur = b.cur
                            /\ b.ni = a.ni + base[1] /\ b.nf = a.nf + base[2]
       [] a.e = "end"    -> /\ (a.out = "ok" => VEqF(a.y, b.y))
                            /\ b.ni = a.ni + base[1] /\ b.nf = a.nf + base[2]

\* the fresh solver starts a retry at event k (it re-evaluates the residual although the last
\* attempt failed) where the reused one, its Jacobian being current, gives up
GaveUp(T, k, j) ==
  LET a == T.fresh[k]  b == T.reused[k]  p == T.fresh[k - 1] IN
  /\ j /\ k > 2 /\ b.e = "end" /\ b.out = "rec"
  /\ a.e = "sys" /\ VEqF(a.y, T.fresh[1].y0)
  /\ p.out = "rec" \/ (p.e = "ctest" /\ p.out = "not")

\* events of each side up to l agree; done when both are consumed
Next ==
  LET T == Traces[tid] IN
  /\ ok /\ l <= Len(T.reused) + 1
  /\ IF l > Len(T.reused) \/ l > Len(T.fresh)
       THEN /\ ok' = (Len(T.reused) = Len(T.fresh))
            /\ l' = Len(T.reused) + 2 /\ UNCHANGED <<jcur>>
       ELSE LET a == T.fresh[l]  b == T.reused[l] IN
            IF GaveUp(T, l, jcur)
              THEN ok' = TRUE /\ l' = Len(T.reused) + 2 /\ UNCHANGED jcur
              ELSE /\ ok' = Same(a, b)
                   /\ l' = l + 1
                   /\ jcur' = IF a.e = "setup" /\ a.out \in {"true", "false"} THEN a.out = "true" ELSE jcur
  /\ UNCHANGED <<tid, base>>

Spec == Init /\ [][Next]_vars

N08 == ~ok => PrintT(<<"BAD", "N08", Traces[tid].id, l - 1>>) /\ FALSE
=============================================================================
