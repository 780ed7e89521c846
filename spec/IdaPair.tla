------------------------------ MODULE IdaPair ------------------------------
(* Properties that relate two runs of the integrator: b is a with something   *)
(* added or changed that must not matter.  A pair has a kind:                 *)
(*   reject  (I15) b makes additional requests (marked x) that have to be     *)
(*           rejected; nothing else differs                                   *)
(*   interp  (I03) b asks additional interpolations (marked x), which succeed *)
(*   split   (I14) the same integration asked for in different portions: the  *)
(*           step attempts are the same                                       *)
(*   mirror  (I17) b is the reflected problem: times and derivatives change   *)
(*           their sign, everything else is equal                             *)
(*   units   (I25) b is a in other units of time, components, residual and   *)
(*           event functions (powers of two, components and event functions   *)
(*           also with the sign changed): everything is equal when converted  *)
(* Equality is equality of doubles (zeros of either sign are equal).          *)
EXTENDS Num, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Props

VARIABLES tid, i, j, inx, ok
vars == <<tid, i, j, inx, ok>>
T == Traces[tid]
A == T.a
B == T.b

FSame(x, y) == x = y \/ FEq(x, y) \/ (FIsNaN(x) /\ FIsNaN(y))
FOpp(x, y) == FSame(x, FNeg(y))
\* up to rounding, before the first step: a call that failed in its first step leaves h y' behind
FClose(x, y) == FSame(x, y) \/ FLe(FAbs(FSub(x, y)), FMul(FOfStr("1e-14"), FAbs(x)))
VClose(u, v) == Len(u) = Len(v) /\ \A n \in 1..Len(u) : FClose(u[n], v[n])
VSame(u, v) == Len(u) = Len(v) /\ \A n \in 1..Len(u) : FSame(u[n], v[n])
VOpp(u, v) == Len(u) = Len(v) /\ \A n \in 1..Len(u) : FOpp(u[n], v[n])
Good(e) == e.out \in {"success", "root", "tstop", "ok"}
Odd(k) == k % 2 = 1

Counters(a, b, withg) ==
  /\ a.nst = b.nst /\ a.nre = b.nre /\ a.nje = b.nje /\ a.nset = b.nset
  /\ a.netf = b.netf /\ a.ncfn = b.ncfn /\ a.nni = b.nni
  /\ withg => a.nge = b.nge

\* ------------------------------------------------------- identical up to the extra requests --
State(a, b, withg, vals) ==
  /\ Counters(a, b, withg)
  /\ a.ku = b.ku /\ a.kk = b.kk
  /\ FSame(a.hu, b.hu) /\ FSame(a.hh, b.hh) /\ FSame(a.tn, b.tn) /\ FSame(a.h0u, b.h0u)
  /\ FSame(a.tolsf, b.tolsf)
  /\ a.ir = b.ir
  /\ FSame(a.tret, b.tret)
  /\ vals => /\ VSame(a.yy, b.yy)
             /\ IF a.nst = 0 THEN VClose(a.yp, b.yp) ELSE VSame(a.yp, b.yp)
             /\ (a.nst = 0 \/ VSame(a.g, b.g))

Equal(a, b) ==
  /\ a.e = b.e
  /\ CASE a.e = "solve"  -> a.m = b.m /\ FSame(a.tout, b.tout)
       [] a.e = "att"    -> FSame(a.t, b.t) /\ FSame(a.cj, b.cj) /\ VSame(a.y, b.y) /\ VSame(a.yp, b.yp)
                            /\ VSame(a.w, b.w) /\ FSame(a.tol, b.tol) /\ a.call = b.call
       [] a.e = "res"    -> FSame(a.t, b.t) /\ VSame(a.y, b.y) /\ VSame(a.yp, b.yp)
       [] a.e = "jac"    -> FSame(a.t, b.t) /\ FSame(a.cj, b.cj) /\ VSame(a.y, b.y) /\ VSame(a.yp, b.yp) /\ VSame(a.r, b.r)
       [] a.e = "lu"     -> a.ok = b.ok
       [] a.e \in {"lx", "nsol"} -> VSame(a.x, b.x)
       [] a.e = "ctest"  -> a.m = b.m /\ VSame(a.del, b.del) /\ VSame(a.w, b.w) /\ a.out = b.out
       [] a.e = "attend" -> a.out = b.out /\ (a.out = "ok" => VSame(a.ee, b.ee)) /\ a.ni = b.ni
       [] a.e = "root"   -> FSame(a.t, b.t) /\ VSame(a.g, b.g)
       [] a.e = "ret"    -> a.out = b.out /\ State(a, b, T.nroots = 0, Good(a))
       [] a.e \in {"getsol", "dky"} ->
              /\ a.out = b.out /\ FSame(a.th, b.th) /\ a.k = b.k
              /\ State(a, b, T.nroots = 0, a.e = "getsol" /\ Good(a))
              /\ Good(a) => IF a.nst = 0 THEN VClose(a.d, b.d) ELSE VSame(a.d, b.d)
       [] a.e = "tstop"  -> FSame(a.t, b.t)
       [] OTHER -> TRUE

\* -------------------------------------------------------------------------- reflected --
Mirrored(a, b) ==
  /\ a.e = b.e
  /\ CASE a.e = "solve"  -> a.m = b.m /\ FOpp(a.tout, b.tout)
       [] a.e = "att"    -> FOpp(a.t, b.t) /\ FOpp(a.cj, b.cj) /\ VSame(a.y, b.y) /\ VOpp(a.yp, b.yp)
                            /\ VSame(a.w, b.w) /\ FSame(a.tol, b.tol) /\ a.call = b.call
       [] a.e = "res"    -> FOpp(a.t, b.t) /\ VSame(a.y, b.y) /\ VOpp(a.yp, b.yp)
       [] a.e = "jac"    -> FOpp(a.t, b.t) /\ FOpp(a.cj, b.cj) /\ VSame(a.y, b.y) /\ VOpp(a.yp, b.yp)
       [] a.e = "ctest"  -> a.m = b.m /\ VSame(a.del, b.del) /\ VSame(a.w, b.w) /\ a.out = b.out
       [] a.e = "attend" -> a.out = b.out /\ (a.out = "ok" => VSame(a.ee, b.ee)) /\ a.ni = b.ni
       [] a.e = "root"   -> FOpp(a.t, b.t) /\ VSame(a.g, b.g)
       [] a.e \in {"ret", "getsol", "dky"} ->
              /\ a.out = b.out
              /\ Counters(a, b, TRUE)
              /\ a.ku = b.ku /\ a.kk = b.kk
              /\ FOpp(a.hu, b.hu) /\ FOpp(a.hh, b.hh) /\ FOpp(a.tn, b.tn) /\ FOpp(a.h0u, b.h0u)
              /\ FSame(a.tolsf, b.tolsf) /\ a.ir = b.ir /\ FOpp(a.tret, b.tret)
              /\ Good(a) /\ a.e # "dky" => VSame(a.yy, b.yy) /\ VOpp(a.yp, b.yp)
              /\ a.e = "dky" /\ Good(a) =>
                   IF Odd(a.k) THEN VOpp(a.d, b.d) ELSE VSame(a.d, b.d)
       [] a.e = "tstop"  -> FOpp(a.t, b.t)
       [] OTHER -> TRUE

\* ---------------------------------------------------------------------------- converted --
Un == T.un
\* x of the first run is y of the second
FConv(x, y, u) == FSame(x, FMul(y, u))
VConv(v, w, us) == Len(v) = Len(w) /\ \A n \in 1..Len(v) : FConv(v[n], w[n], us[n])
VConvAll(v, w, u) == Len(v) = Len(w) /\ \A n \in 1..Len(v) : FConv(v[n], w[n], u)
TConv(x, y) == FConv(x, y, Un.t)
Dy(k) == Un.y[k + 1]
\* steps have shrunk to nothing; the harness's own numbers overflow in other units
Extreme(a) == a.e = "att" /\ (~FIsFinite(a.cj) \/ FLt(FOfStr("1e60"), FAbs(a.cj)))
Converted(a, b) ==
  /\ a.e = b.e
  /\ CASE a.e = "solve"  -> a.m = b.m /\ TConv(a.tout, b.tout)
       [] a.e = "att"    -> TConv(a.t, b.t) /\ FConv(a.cj, b.cj, Un.cj) /\ VConv(a.y, b.y, Dy(0)) /\ VConv(a.yp, b.yp, Dy(1))
                            /\ VConv(a.w, b.w, Un.w) /\ FSame(a.tol, b.tol) /\ a.call = b.call
       [] a.e = "res"    -> TConv(a.t, b.t) /\ VConv(a.y, b.y, Dy(0)) /\ VConv(a.yp, b.yp, Dy(1)) /\ VConvAll(a.r, b.r, Un.r)
       [] a.e = "jac"    -> TConv(a.t, b.t) /\ FConv(a.cj, b.cj, Un.cj) /\ VConv(a.y, b.y, Dy(0)) /\ VConv(a.yp, b.yp, Dy(1))
                            /\ VConvAll(a.r, b.r, Un.r) /\ a.zero = b.zero
       [] a.e = "lu"     -> a.ok = b.ok
       [] a.e \in {"lx", "nsol"} -> VConv(a.x, b.x, Dy(0))
       [] a.e = "ctest"  -> a.m = b.m /\ VConv(a.del, b.del, Dy(0)) /\ VConv(a.w, b.w, Un.w) /\ a.out = b.out
       [] a.e = "attend" -> a.out = b.out /\ (a.out = "ok" => VConv(a.ee, b.ee, Dy(0))) /\ a.ni = b.ni
       [] a.e = "root"   -> TConv(a.t, b.t) /\ VConv(a.g, b.g, Un.g)
       [] a.e \in {"ret", "getsol", "dky"} ->
              /\ a.out = b.out
              /\ Counters(a, b, TRUE)
              /\ a.ku = b.ku /\ a.kk = b.kk
              /\ TConv(a.hu, b.hu) /\ TConv(a.hh, b.hh) /\ TConv(a.tn, b.tn) /\ TConv(a.h0u, b.h0u)
              /\ FSame(a.tolsf, b.tolsf) /\ TConv(a.tret, b.tret)
              \* (the information belongs to events; a zero met at the beginning of a step counts as 1)
              /\ a.out = "root" => /\ Len(a.ir) = Len(b.ir)
                                   /\ \A n \in 1..Len(a.ir) : a.ir[n] = Un.s[n] * b.ir[n]
                                                             \/ (a.ir[n] = 1 /\ b.ir[n] = 1 /\ FEq(a.g[n], "0000000000000000"))
              /\ Good(a) /\ a.e # "dky" => VConv(a.yy, b.yy, Dy(0)) /\ VConv(a.yp, b.yp, Dy(1))
              /\ a.e = "dky" /\ Good(a) => VConv(a.d, b.d, Dy(a.k))
              /\ TConv(a.pay.t, b.pay.t) /\ TConv(a.pay.tdiff, b.pay.tdiff) /\ TConv(a.pay.tcurr, b.pay.tcurr) /\ TConv(a.pay.tstop, b.pay.tstop)
       [] a.e = "tstop"  -> TConv(a.t, b.t)
       [] OTHER -> TRUE

\* --------------------------------------------------------------------------------- two runs --
Init == tid \in 1..Len(Traces) /\ i = 1 /\ j = 1 /\ inx = FALSE /\ ok = TRUE

IsX(e) == e.e \in {"solve", "ret", "getsol", "dky", "tstop"} /\ e.x

\* x is clearly earlier than t as seen from the state e
Fz(e) == FMul(FOfStr("1e-12"), FAdd(FAbs(e.tn), FAbs(e.hu)))
Earlier(e, x, t) ==
  LET gap == FSub(t, x) IN FLt(Fz(e), IF FLt(e.hu, "0000000000000000") THEN FNeg(gap) ELSE gap)
Outside(e, x) == e.nst > 0 /\ Earlier(e, x, FSub(e.tn, e.hu))
\* an interpolation request that has to be rejected
MustReject(e) == e.k > e.ku \/ Outside(e, e.th)
\* the same for the call that ends with event n: output time in the past or equal to the start,
\* or stop time in the past
LastOf(n, kind) == LET S == {x \in 1..n : B[x].e = kind} IN
  IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MustRejectCall(n) ==
  LET e == B[n]  q == B[LastOf(n, "solve")].tout  s == LastOf(n, "tstop") IN
  \/ e.nst = 0 /\ FEq(q, "0000000000000000")
  \* before the first step, a stop time on the other side of the start
  \/ /\ e.nst = 0 /\ s # 0
     /\ IF FLt("0000000000000000", q) THEN FLe(B[s].t, "0000000000000000")
        ELSE FLt(q, "0000000000000000") /\ FLe("0000000000000000", B[s].t)
  \/ Outside(e, q)
  \/ s # 0 /\ B[s].x /\ (IF e.nst = 0 THEN B[s].t = e.tn ELSE Earlier(e, B[s].t, e.tn))
Rejected(e) == e.out \notin {"success", "root", "tstop", "ok", "continue", "panic"}

\* an additional request of b, with what happens inside it
Extra ==
  /\ T.kind \in {"reject", "interp"}
  /\ j <= Len(B) /\ (inx \/ IsX(B[j]))
  /\ inx' = (B[j].e = "solve" \/ (inx /\ B[j].e # "ret"))
  /\ LET e == B[j]
         ends == e.e \in {"ret", "getsol", "dky"}
         must == IF e.e = "ret" THEN MustRejectCall(j) ELSE MustReject(e)
     IN IF ends /\ T.kind = "reject" /\ ~must
        THEN i' = Len(A) + 1 /\ j' = Len(B) + 1 /\ ok' = TRUE    \* a request that may be granted
        ELSE /\ j' = j + 1 /\ UNCHANGED i
             /\ ok' = (ends => IF must THEN Rejected(e) ELSE e.out = "ok")

Both ==
  /\ T.kind # "split"
  /\ ~inx /\ ~(T.kind \in {"reject", "interp"} /\ j <= Len(B) /\ IsX(B[j]))
  /\ i <= Len(A) \/ j <= Len(B)
  /\ IF i > Len(A) \/ j > Len(B) THEN ok' = FALSE
     ELSE ok' = CASE T.kind = "units" /\ Extreme(A[i]) -> TRUE [] T.kind = "mirror" -> Mirrored(A[i], B[j]) [] T.kind = "units" -> Converted(A[i], B[j]) [] OTHER -> Equal(A[i], B[j])
  /\ IF T.kind = "units" /\ i <= Len(A) /\ Extreme(A[i]) THEN i' = Len(A) + 1 /\ j' = Len(B) + 1 ELSE i' = i + 1 /\ j' = j + 1
  /\ UNCHANGED inx

\* only the step attempts count; the shorter run decides
Split ==
  /\ T.kind = "split"
  /\ i <= Len(A) /\ j <= Len(B)
  /\ IF B[j].e = "ret" /\ B[j].nst = 0                  \* the first step is yet to come, and with it the choice of its size
     THEN i' = Len(A) + 1 /\ j' = j /\ ok' = TRUE
     ELSE IF A[i].e # "att" /\ A[i].e # "attend" THEN i' = i + 1 /\ j' = j /\ ok' = TRUE
     ELSE IF B[j].e # "att" /\ B[j].e # "attend" THEN j' = j + 1 /\ i' = i /\ ok' = TRUE
     ELSE i' = i + 1 /\ j' = j + 1 /\ ok' = Equal(A[i], B[j])
  /\ UNCHANGED inx

Next == /\ ok
        /\ \/ Split
           \/ Both
           \/ Extra
        /\ UNCHANGED tid

Prop == CASE T.kind = "reject" -> "I15" [] T.kind = "interp" -> "I03" [] T.kind = "split" -> "I14" [] T.kind = "mirror" -> "I17" [] T.kind = "units" -> "I25"
Judge == Next /\ (~ok' => PrintT(<<"BAD", Prop, T.id, j>>))
JudgeSpec == Init /\ [][Judge]_vars
=============================================================================
