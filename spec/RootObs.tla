------------------------------ MODULE RootObs ------------------------------
(* C01: recorded lives of one Newton solver, one matrix and one dense solver *)
(* (harness root.rs) against Root.tla, in exact arithmetic with an allowance *)
(* for rounding.                                                             *)
EXTENDS Root, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
\* at: the event "start" in force;  M, mk: matrix of the last setup, whether there is one;
\* x: current iterate (bits);  prev: the one before;  its: corrections of this attempt;
\* clean: the solve before this one succeeded (or there was none)
VARIABLES tid, l, at, M, mk, x, prev, clean, last
vars == <<tid, l, at, M, mk, x, prev, clean, last>>
T == Traces[tid]
\* everything is judged in the units of the unknowns, z[j] = x[j] / 2^k[j]: vectors of unknowns are
\* divided by them, what multiplies unknowns is multiplied.  (A setup that was skipped may have been
\* made in other units; the elements of M are kept as they are and converted where they are used.)
Pow(e, v, g) == Force([j \in 1..Len(v) |-> RMul(v[j], RPow2(g * e.k[j]))])
Bits(v) == Force([i \in 1..Len(v) |-> RofF(v[i])])
Un(e, v) == Pow(e, Bits(v), -1)
Wt(e, v) == Pow(e, Bits(v), 1)
SysOf(e) == [c |-> e.c, r |-> Un(e, e.r), q |-> Force([i \in 1..Len(e.q) |-> RMul(RofF(e.q[i]), RPow2(2 * e.k[e.c[i]]))]),
             A |-> Force([i \in 1..Len(e.A) |-> Wt(e, e.A[i])])]
MatOf(e, m) == Force([i \in 1..Len(m) |-> Pow(e, m[i], 1)])
RawJac(e, y) == Force([i \in 1..Len(y) |-> Pow(e, Jac(SysOf(e), Un(e, y))[i], -1)])
Fin(v) == \A i \in 1..Len(v) : FIsFinite(v[i])
Init == tid \in 1..Len(Traces) /\ l = 1 /\ at = 0 /\ M = <<>> /\ mk = FALSE /\ x = <<>> /\ prev = <<>> /\ clean = TRUE /\ last = 0
Next ==
  /\ l <= Len(T.ev) /\ l' = l + 1 /\ tid' = tid
  /\ LET e == T.ev[l] IN
       CASE e.e = "start" -> at' = l /\ x' = e.y /\ prev' = e.y /\ last' = 0 /\ clean' = (l = 1 \/ T.ev[l - 1].out = "ok")
                             /\ UNCHANGED <<M, mk>>
         [] e.e = "setup" -> /\ x' = T.ev[at].y /\ prev' = x' /\ last' = 0
                             /\ mk' = (e.out = "ok" /\ Fin(e.y))
                             /\ M' = IF Fin(e.y) THEN RawJac(T.ev[at], e.y) ELSE <<>>
                             /\ UNCHANGED <<at, clean>>
         [] e.e = "kept" -> x' = T.ev[at].y /\ prev' = x' /\ last' = 0 /\ UNCHANGED <<at, M, mk, clean>>
         [] e.e = "iter" -> prev' = x /\ x' = e.y /\ last' = l /\ UNCHANGED <<at, M, mk, clean>>
         [] OTHER -> UNCHANGED <<at, M, mk, x, prev, clean, last>>
Spec == Init /\ [][Next]_vars

E == T.ev[l - 1]
B == T.ev[at]
n == T.n
S == SysOf(B)
MM == MatOf(B, M)
F2R(v) == Un(B, v)
U40 == RPow2(-40)
\* what rounding may leave of an equation of this size
Slack(s, m, y, d) ==
  LET big == RAdd(RAdd(MaxEl(m), MaxEl(s.A)), RMul(MaxAbs(s.q), Err(s, y)))
      len == RAdd(RAdd(MaxAbs(y), MaxAbs(s.r)), MaxAbs(d))
  IN RMul(RMul(U40, RofInt(n * n)), RMul(big, len))
Floor(s, m, y, d) == RDiv(RMul(Two, Slack(s, m, y, d)), Alpha(s.c, m))

\* a correction solves Newton's equation and is applied
StepOK ==
  LET s == S
      y == F2R(prev)
      d == F2R(E.del)
      f == Fun(s, y)
      g == MatVec(MM, d)
  IN /\ RLe(MaxAbs(VAdd(f, g)), Slack(s, MM, y, d))
     /\ \A i \in 1..n : FEq(E.y[i], FAdd(prev[i], E.del[i]))
NormOK ==
  LET d == F2R(E.del)
      w == Wt(B, B.w)
      v == RofF(E.nrm)
  IN FIsFinite(E.nrm) /\ FLe(FOfInt(0), E.nrm) /\ Small(d, w, RMul(v, RAdd(ROne, U40)))
       /\ (~Small(d, w, RMul(v, RSub(ROne, U40))) \/ RLe(v, RZero))
\* smaller than 2^-400 squares underflow; larger than 2^400 they overflow
Plain(v) == Fin(v) /\ \A i \in 1..Len(v) : FLe(FAbs(v[i]), FOfStr("1e100")) /\ (FEq(v[i], FOfInt(0)) \/ FLe(FOfStr("1e-100"), FAbs(v[i])))
BadIter == /\ Plain(prev) /\ Plain(E.del)
           /\ \/ mk /\ ~StepOK
              \/ ~NormOK

ZeroCols(m) == {j \in 1..n : \A i \in 1..n : m[i][j] = RZero}
Sound(m) == RLt(RZero, Alpha(S.c, m))
\* all rows but the one that is dominated by column k are dominant
SoundBut(m, k) == \A i \in 1..n : S.c[i] # k => RLt(RZero, Dom(S.c, m, i))
BadSetup == /\ M # <<>>
            /\ \/ Sound(MM) /\ E.out # "ok"
               \/ \E k \in ZeroCols(MM) : ZeroCols(MM) = {k} /\ SoundBut(MM, k) /\ E.out # "col" \o ToString(k)

SetupFailed == T.ev[l - 2].e = "setup" /\ T.ev[l - 2].out # "ok"
BadEnd ==
  LET s == S
      y0 == F2R(B.y)
      J == Jac(s, y0)
  IN \/ E.out \notin {"ok", "rec"} /\ ~(SetupFailed /\ E.out = T.ev[l - 2].out)
     \/ SetupFailed /\ E.out # T.ev[l - 2].out
     \* converged: the test was passed, and what is returned is the iterate that passed it
     \/ E.out = "ok" /\ (last = 0 \/ last # l - 2 \/ ~FLe(T.ev[last].nrm, B.tol) \/ E.y # x)
     \/ E.out = "ok" /\ last # 0 /\ mk /\ Plain(prev) /\ Plain(T.ev[last].del)
          /\ ~Close(s, MM, F2R(prev), F2R(T.ev[last].del), F2R(x), Floor(s, MM, F2R(prev), F2R(T.ev[last].del)))
     \* a root close enough is found
     \/ E.out # "ok" /\ (clean \/ (B.call /\ ~B.lazy))
          /\ RLt(RZero, Alpha(s.c, J))
          /\ Certain(s, J, y0, Wt(B, B.w), RofF(B.tol), T.maxit,
                     Floor(s, J, y0, [i \in 1..n |-> RMul(Two, Err(s, y0))]), B.diverge)
Bad == l > 1 /\ (\/ E.e = "iter" /\ BadIter
                 \/ E.e = "setup" /\ BadSetup
                 \/ E.e = "end" /\ BadEnd)
C01 == Bad => PrintT(<<"BAD", "C01", T.id, l - 1>>) /\ FALSE
=============================================================================
