------------------------------- MODULE IdaMon -------------------------------
(* Monitor of an integration, written over the events at the integrator's     *)
(* seams: the user's calls and their results, the conversation with the       *)
(* nonlinear solver, the user's residual, Jacobian and event functions.       *)
(* Its state is a model of the integrator: accepted history, counters,        *)
(* control state; m.bad collects the properties contradicted so far.          *)
(*                                                                            *)
(* Events (numbers are doubles in hexadecimal, see Num)                       *)
(*  solve  m ("N" normal, "O" one step), tout                                 *)
(*  att    a step attempt starts: t, predicted y, yp, factor cj, weights w,   *)
(*         Newton tolerance tol, call (setup requested), np probes made       *)
(*  res    residual evaluation: t, y, yp, r                                   *)
(*  jac    Jacobian evaluation: t, cj, y, yp, r, sing; lu its factorization   *)
(*  lx     result of the linear solver; nsol what Newton was given            *)
(*  ctest  convergence test: m iteration, del, tol, w, out conv/not/rec       *)
(*  attend end of the nonlinear solve: out ok/rec/fatal..., ee, ni            *)
(*  root   event function evaluation: t, y, yp, g                             *)
(*  badw   the user's tolerance rule has produced an illegal weight           *)
(*  ret    result of a call with everything that can be asked afterwards      *)
(*  getsol, dky  interpolation requests with their results                    *)
(*  tstop  a stop time has been set                                           *)
EXTENDS BDF, FiniteSets

CONSTANT Trace   \* the record of the whole run: y0, yp0, tolerances, ...
INSTANCE IdaCtl

PropIds == {"I01","I02","I03","I04","I05","I06","I07","I08","I09","I10","I11","I12","I13","I14","I16","I18","I19","I20","I21","I24"}

N == Len(Trace.y0)
NewtTol == FOfStr("0.33")
MaxIters == 4                   \* Newton iterations before a Jacobian is given up
Tight == FOfStr("1e-11")        \* agreement up to accumulated rounding
Loose == FOfStr("1e-9")

\* -------------------------------------------------------------- weights --
Atol(i) == IF Len(Trace.atol) = 1 THEN Trace.atol[1] ELSE Trace.atol[i]
Wt(y) == Force([i \in 1..Len(y) |-> FDiv(F1, FAdd(FMul(Trace.rtol, FAbs(y[i])), Atol(i)))])
LegalW(w) == \A i \in 1..Len(w) : FLt(F0, w[i]) /\ FIsFinite(w[i])

NoAtt == [on |-> FALSE]
Free == {}         \* nothing prescribed

MInit ==
  [ hist |-> <<[h |-> F0, y |-> Trace.y0, ee |-> [i \in 1..N |-> F0]]>>,
    tn |-> F0,                  \* internal time
    dir |-> 0,                  \* direction of integration
    kused |-> 0, hused |-> F0,  \* last accepted step
    k |-> 0, h |-> F0,          \* last attempt
    cj |-> F0,
    ns |-> 0, nsA |-> 0, phase |-> 0,
    nef |-> 0, ncf |-> 0,       \* failures in the present step
    next |-> Free,              \* what the next attempt may be
    why |-> "start",            \* and why
    att |-> NoAtt,              \* attempt under way or awaiting its verdict
    cjold |-> F0, ss |-> F0, oldnrm |-> F0,
    fresh |-> FALSE,            \* the Jacobian belongs to this attempt
    res |-> [t |-> F0, y |-> <<>>, yp |-> <<>>, r |-> <<>>],
    lx |-> <<>>,
    over |-> FALSE,             \* the rest of the run cannot be judged
    call |-> [on |-> FALSE],
    h0 |-> F0,                  \* size of the first attempt
    rep |-> <<>>,               \* order and size reported for the next attempt
    badw |-> FALSE,
    tstop |-> "none",
    nst |-> 0, nre |-> 0, nje |-> 0, netf |-> 0, ncfn |-> 0, nni |-> 0, nge |-> 0, nset |-> 0,
    steps |-> 0,                \* accepted steps in the present call
    lastt |-> F0,               \* time returned last
    lastout |-> "none",
    gA |-> Trace.g0,             \* event functions at the furthest returned point
    tA |-> F0, irA |-> <<>>,
    evs |-> <<>>,               \* event function evaluations since then
    bad |-> {} ]

Flag(m, S) == [m EXCEPT !.bad = @ \cup S]
If(c, S) == IF c THEN S ELSE {}

\* ------------------------------------------------------------- direction --
Along(m, x) == IF m.dir < 0 THEN FNeg(x) ELSE x
\* a is beyond b in the direction of integration
Beyond(m, a, b) == FLt(F0, Along(m, FSub(a, b)))
Fuzz(m) == FMul(FMul(FI(100), Eps), FAdd(FAbs(m.tn), FAbs(m.h)))
Fuzz2(m, h) == FMul(FMul(FI(100), Eps), FAdd(FAbs(m.tn), FAbs(h)))

\* ---------------------------------------------------------- verdict on an attempt --
\* The sets of orders and sizes that may follow an attempt.  Each candidate is
\*   [k, lo, hi, phase]: the size lies between lo and hi.
Cand(k, h, lo, hi, phase) ==
  LET u == FOfStr("1e-12")
      a == FMul(h, FMul(lo, FSub(F1, u)))  b == FMul(h, FMul(hi, FAdd(F1, u))) IN
  [k |-> k, lo |-> FMin(a, b), hi |-> FMax(a, b), phase |-> phase]
Exact(k, h, f, phase) == Cand(k, h, f, f, phase)

Clamp(r, lo, hi) == [lo |-> FMin(FMax(r.lo, lo), hi), hi |-> FMin(FMax(r.hi, lo), hi)]

\* estimates of the attempt a: order k and below
Estimates(m, a, ee) ==
  LET k == a.k  h == a.h
      y == VAddF(a.y, ee)
      ek == ErrAt(m.hist, k, h, ee, a.w, Trace.mask)
      e1 == IF k > 1 THEN ErrLower(m.hist, k - 1, h, y, a.w, Trace.mask) ELSE ek
      e2 == IF k > 2 THEN ErrLower(m.hist, k - 2, h, y, a.w, Trace.mask) ELSE ek
      T(j, E) == Scale(FI(j + 1), E)
      lower == IF k = 1 THEN {FALSE}
               ELSE IF k = 2 THEN LeSet(T(1, e1), Scale(FHalf, T(2, ek)))
               ELSE LeSet(MaxE(T(k - 1, e1), T(k - 2, e2)), T(k, ek))
  IN [y |-> y, ek |-> ek, e1 |-> e1,
      knew |-> {IF b THEN k - 1 ELSE k : b \in lower}]

\* after the n-th error test failure of this step
AfterErrFail(m, a, E) ==
  LET n == m.nef + 1 IN
  UNION { LET k2 == OrderAfterErrFail(n, knew)
              r == Rate(IF knew = a.k THEN E.ek ELSE E.e1, knew)
              s == [lo |-> FMul(FOfStr("0.9"), r.lo), hi |-> FMul(FOfStr("0.9"), r.hi)]
              c == Clamp(s, FQuarter, FOfStr("0.9"))
          IN IF n = 1 THEN {Cand(k2, a.h, c.lo, c.hi, 1)}
             ELSE {Exact(k2, a.h, FQuarter, 1)}
        : knew \in E.knew }

AfterConvFail(m, a) == {Exact(a.k, a.h, FQuarter, 1)}

\* after acceptance; E estimates, eeprev the correction of the step before
SizeAfter(k2, h, err, phase) ==
  LET r == Rate(err, k2)
      can2 == FLe(F2, r.hi)
      canlow == FLe(r.lo, F1)
      cankeep == FLt(r.lo, F2) /\ FLt(F1, r.hi)
      c == Clamp(r, FHalf, FOfStr("0.9"))
  IN (IF can2 THEN {Exact(k2, h, F2, phase)} ELSE {})
     \cup (IF cankeep THEN {Exact(k2, h, F1, phase)} ELSE {})
     \cup (IF canlow THEN {Cand(k2, h, c.lo, c.hi, phase)} ELSE {})

AfterStep(m, a, ee, E) ==
  LET k == a.k
      kdiff == k - m.kused
      nst == m.nst + 1
      One(knew) ==
        LET phase == PhaseAfterStep(m.phase, k, knew) IN
        IF phase = 0
        THEN IF nst > 1 THEN {Exact(k + 1, a.h, F2, 0)} ELSE {Exact(k, a.h, F1, 0)}
        ELSE IF knew = k - 1 THEN SizeAfter(k - 1, a.h, E.e1, 1)
        ELSE IF ~MayRaise(k, knew, m.nsA, kdiff) THEN SizeAfter(k, a.h, E.ek, 1)
        ELSE LET ep == ErrHigher(k, ee, m.hist[1].ee, a.w, Trace.mask)
                 tk == Scale(FI(k + 1), E.ek)
                 tp == Scale(FI(k + 2), ep)
                 t1 == Scale(FI(k), E.e1)
                 lower == IF k = 1 THEN {FALSE} ELSE LeSet(t1, MinE(tk, tp))
                 keep == IF k = 1 THEN LeSet(Scale(FHalf, tk), tp) ELSE LeSet(tk, tp)
             IN (IF TRUE \in lower THEN SizeAfter(k - 1, a.h, E.e1, 1) ELSE {})
                \cup (IF FALSE \in lower /\ TRUE \in keep THEN SizeAfter(k, a.h, E.ek, 1) ELSE {})
                \cup (IF FALSE \in lower /\ FALSE \in keep THEN SizeAfter(k + 1, a.h, ep, 1) ELSE {})
  IN UNION {One(knew) : knew \in E.knew}

\* the values that "accepted" may have: ck * norm <= 1
MayPass(m, a, ee) ==
  LET n == WNorm(ee, a.w, Trace.mask)
      c == FMul(Ck(m.hist, a.k, a.h), n)
  IN LeSet([e |-> c, s |-> FMul(FOfStr("1e-10"), c)], [e |-> F1, s |-> F0])

\* Steps so small that the time hardly shows them: then the order is told by the decision that
\* led to the attempt, and acceptance by the error test.
Tiny(m, t) == FLe(FAbs(FSub(t, m.tn)), FMul(FOfStr("1e-11"), FMax(FAbs(t), FAbs(m.tn))))
Stuck(m) == m.nst > 0 /\ Tiny(m, m.att.t)
Unclear(m) == m.att.on /\ m.att.done /\ m.att.out = "ok" /\ Stuck(m) /\ MayPass(m, m.att, m.att.ee) = {TRUE, FALSE}

\* The attempt under way has turned out to be accepted or not.
\* For a fatal failure nothing is prescribed for a later attempt.
Resolve(m, accepted) ==
  IF ~m.att.on \/ ~m.att.done THEN m
  ELSE LET a == m.att IN
  IF a.out = "ok"
  THEN LET E == Estimates(m, a, a.ee)
           pass == MayPass(m, a, a.ee)
           b == If(accepted \notin pass, {"I06"})
       IN IF accepted
          THEN [m EXCEPT
                 !.hist = SubSeq(<<[h |-> a.h, y |-> E.y, ee |-> a.ee]>> \o @, 1, IF Len(@) < 7 THEN Len(@) + 1 ELSE 7),
                 !.tn = a.t, !.kused = a.k, !.hused = a.h, !.ns = m.nsA,
                 !.nst = @ + 1, !.steps = @ + 1, !.nef = 0, !.ncf = 0,
                 !.next = AfterStep(m, a, a.ee, E), !.why = "step", !.att = NoAtt,
                 !.bad = @ \cup b]
          ELSE [m EXCEPT
                 !.netf = @ + 1, !.nef = @ + 1, !.phase = 1,
                 !.next = IF m.nef + 1 >= MaxErrFails THEN Free ELSE AfterErrFail(m, a, E),
                 !.why = IF m.nef + 1 >= MaxErrFails THEN "end" ELSE "fail", !.att = NoAtt,
                 !.bad = @ \cup b]
  ELSE \* the nonlinear solve failed
       [m EXCEPT !.ncfn = @ + 1, !.phase = 1,
          !.ncf = @ + 1,
          !.next = IF a.out # "rec" \/ m.ncf + 1 >= MaxConvFails THEN Free ELSE AfterConvFail(m, a),
          !.why = IF a.out # "rec" \/ m.ncf + 1 >= MaxConvFails THEN "end" ELSE "fail",
          !.att = NoAtt,
          !.bad = @ \cup If(accepted, {"I06", "I07"})]

\* ------------------------------------------------------- following a decision --
\* candidates compatible with order k and size h, given a stop time
Fits(m, k, h, c) ==
  /\ k = c.k
  /\ \/ FLe(c.lo, h) /\ FLe(h, c.hi)
     \/ /\ m.tstop # "none"
        /\ LET lim == FMul(FSub(m.tstop, m.tn), FSub(F1, FMul(FI(4), Eps))) IN
           /\ RelNear(h, lim, FOfStr("1e-12"))
           /\ FLe(FMul(FAbs(h), FSub(F1, FOfStr("1e-10"))), FMax(FAbs(c.lo), FAbs(c.hi)))
Follow(m, k, h, culprits) ==
  IF m.next = Free THEN [m EXCEPT !.next = Free]
  ELSE LET S == {c \in m.next : Fits(m, k, h, c)} IN
       IF S = {} THEN [m EXCEPT !.bad = @ \cup culprits, !.phase = 1, !.next = Free]
       ELSE [m EXCEPT !.phase = (CHOOSE c \in S : \A d \in S : c.phase <= d.phase).phase, !.next = S]
Culprits(m) == IF m.why = "fail" THEN {"I07"} ELSE {"I08"}

\* ------------------------------------------------------------------ events --
OnSolve(m, ev) ==
  [m EXCEPT !.call = [on |-> TRUE, m |-> ev.m, tout |-> ev.tout, tn |-> m.tn, natt |-> 0,
                      inner |-> m.nst > 0 /\ Beyond(m, m.tn, m.lastt)],
            !.steps = 0,
            !.phase = IF m.nst = 0 THEN 0 ELSE @,
            !.dir = IF m.nst = 0 THEN (IF FLt(ev.tout, m.tn) THEN -1 ELSE 1) ELSE @]

\* order of an attempt from its time and factor
HOf(k, cj) == FDiv(Harm(k), cj)
Mis(m, t, k, cj) == FAbs(FDiv(FSub(FAdd(m.tn, HOf(k, cj)), t), HOf(k, cj)))
BestK(m, t, cj) ==
  IF ~FIsFinite(Mis(m, t, 1, cj)) THEN 1
  ELSE CHOOSE k \in 1..6 : \A j \in 1..6 : FLe(Mis(m, t, k, cj), Mis(m, t, j, cj))

OrderOf(m, t, cj) ==
  IF m.nst > 0 /\ Tiny(m, t) /\ m.next # Free
  THEN LET S == {c \in m.next : Fits(m, c.k, HOf(c.k, cj), c)} IN
       (CHOOSE c \in IF S = {} THEN m.next ELSE S : TRUE).k
  ELSE BestK(m, t, cj)

\* Sizes the very first attempt of a call with output time tout may have: a thousandth of the
\* distance, or half the inverse of the norm of y' if that would move y by more than two; not
\* beyond a stop time.
FirstSizes(m, tout) ==
  LET far == FMul(FOfStr("0.001"), FAbs(tout))
      nrm == WNorm(Trace.yp0, Wt(Trace.y0), Trace.mask)
      x == FMul(nrm, far)
      u == FOfStr("1e-9")
      sizes == (IF FLt(FMul(F2, FSub(F1, u)), x) THEN {FDiv(FHalf, nrm)} ELSE {})
               \cup (IF FLe(x, FMul(F2, FAdd(F1, u))) THEN {far} ELSE {})
      towards(h) == IF FLt(tout, F0) THEN FNeg(h) ELSE h
      cut(h) == IF m.tstop # "none" /\ FLt(FAbs(m.tstop), FAbs(h)) THEN m.tstop ELSE h
  IN {cut(towards(h)) : h \in sizes}

OnAtt(m0, ev) ==
  IF Unclear(m0) \/ FLt(FOfStr("1e30"), FAbs(m0.cj))
     \/ (\E i \in 1..N : FLt(FOfStr("1e120"), FAbs(ev.yp[i])))    \* numbers that spoil the reading of cj
     \/ (m0.nst > 0 /\ m0.next = Free /\ Tiny(m0, ev.t)) THEN [m0 EXCEPT !.over = TRUE] ELSE
  LET acc == m0.att.on /\ m0.att.done /\ m0.att.out = "ok"
             /\ (IF Stuck(m0) THEN MayPass(m0, m0.att, m0.att.ee) = {TRUE} ELSE Beyond(m0, ev.t, m0.att.t))
      m1 == Resolve(m0, acc)
      cj == ev.cj
      first == m1.nst = 0
      k == OrderOf(m1, ev.t, cj)
      h == HOf(k, cj)
      ulps == FMul(FMul(FI(8), Eps), FMax(FAbs(m1.tn), FAbs(ev.t)))
      \* the factor, the time step and the order must fit together
      fits == FIsFinite(cj) /\ FIsFinite(h) /\ Near(FAdd(m1.tn, h), ev.t, FAdd(ulps, FMul(FOfStr("1e-12"), FAbs(h))))
      m2 == Follow(m1, k, h, Culprits(m1))
      same == k = m1.kused /\ FEq(h, m1.hused)
      enough == k + 1 <= Len(m1.hist) \/ (first /\ k = 1)
      P == Predicted(m1.hist, Trace.yp0, k, h)
      wexp == Wt(m1.hist[1].y)
      cjold == IF first THEN cj ELSE m1.cjold
      ratio == FDiv(cj, cjold)
      lo == FOfStr("0.6")  hi == FDiv(F1, FOfStr("0.6"))
      u == FOfStr("1e-9")
      drift == FLt(FMul(ratio, FAdd(F1, u)), lo) \/ FLt(FMul(hi, FAdd(F1, u)), ratio)
      nodrift == FLt(lo, FMul(ratio, FSub(F1, u))) /\ FLt(ratio, FMul(hi, FSub(F1, u)))
      tolsf == FMul(Eps, WNorm(m1.hist[1].y, ev.w, Trace.mask))
      b == If(~fits, {"I05"})
           \cup If(fits /\ ~enough, {"I08"})
           \cup If(fits /\ first /\ k # 1, {"I04", "I08"})
           \cup If(fits /\ Along(m1, h) # FAbs(h), {"I01"})
           \cup If(fits /\ enough /\ ~VNear(ev.y, P.y, P.ym, Tight), {"I04"})
           \cup If(fits /\ enough /\ ~VNear(ev.yp, P.yp, P.ypm, Tight), {"I04"})
           \cup If(m1.why = "end" /\ m1.call.on /\ m1.call.natt > 0 /\ m0.att.on, {"I07"})
           \cup If(m1.why = "step" /\ m1.nst > m0.nst /\ m1.call.m = "O" /\ m1.steps >= 1, {"I02"})
           \cup If(m1.steps >= MaxSteps, {"I14"})
           \cup If(m1.call.m = "O" /\ m1.call.inner, {"I02"})
           \cup If(m1.call.m = "N" /\ m1.nst > 0 /\ ~Beyond(m1, m1.call.tout, m1.tn), {"I01"})
           \cup If(Trace.tolk # "bad" /\ ~VNear(ev.w, wexp, VAbs(wexp), FOfStr("1e-12")), {"I13"})
           \cup If(~LegalW(ev.w) \/ m1.badw, {"I13"})
           \cup If(LegalW(ev.w) /\ FLt(FAdd(F1, u), tolsf), {"I13"})
           \cup If(ev.tol # NewtTol, {"I12"})
           \cup If(~ev.call /\ (first \/ drift), {"I11"})
           \cup If(ev.call /\ ~first /\ nodrift, {"I11"})
           \cup If(m1.tstop # "none" /\ FLt(Fuzz2(m1, h), Along(m1, FSub(ev.t, m1.tstop))), {"I18"})
           \cup If(fits /\ first /\ m1.call.natt = 0 /\ Trace.tolk # "bad"
                   /\ \A x \in FirstSizes(m1, m1.call.tout) : ~RelNear(h, x, FOfStr("1e-9")), {"I20"})
           \cup If(fits /\ ~first /\ m1.call.natt = 0 /\ m1.rep # <<>>
                   /\ ~( /\ k = m1.rep[1]
                         /\ \/ RelNear(h, m1.rep[2], FOfStr("1e-12"))
                            \/ m1.tstop # "none" /\ FLe(FAbs(h), FAbs(m1.rep[2]))), {"I21"})
  IN [m2 EXCEPT
       !.h0 = IF first /\ m1.call.natt = 0 THEN h ELSE @,
       !.bad = @ \cup b,
       !.over = @ \/ ~enough,   \* no such polynomial: nothing more is prescribed
       !.k = k, !.h = h, !.cj = cj,
       !.nsA = Ns(same, m1.ns, m1.kused),
       !.nre = @ + ev.np,
       !.cjold = cjold,
       !.ss = IF cj # m1.cj \/ first THEN FI(IF cj # m1.cj /\ m1.cj # F0 THEN 100 ELSE 20) ELSE @,
       !.fresh = FALSE,
       !.call.natt = @ + 1,
       !.res = [t |-> F0, y |-> <<>>, yp |-> <<>>, r |-> <<>>],
       !.att = [on |-> TRUE, done |-> FALSE, out |-> "", ee |-> <<>>, name |-> "", t |-> ev.t, k |-> k, h |-> h, cj |-> cj,
                y |-> ev.y, yp |-> ev.yp, w |-> ev.w, ratio |-> ratio, call |-> ev.call,
                rec |-> FALSE]]

\* cj is read off two residuals, up to rounding
OnRes(m, ev) ==
  IF ~m.att.on \/ m.att.done THEN [m EXCEPT !.nre = @ + 1, !.bad = @ \cup {"I05"}]
  ELSE LET a == m.att
           d == VSubF(ev.y, a.y)
           want == VAddF(a.yp, VScaleF(a.cj, d))
           mag == VAddF(VAddF(VAbs(a.yp), VAbs(want)), VScaleF(FAbs(a.cj), VAddF(VAbs(ev.y), VAbs(a.y))))
       IN [m EXCEPT !.nre = @ + 1,
             !.res = [t |-> ev.t, y |-> ev.y, yp |-> ev.yp, r |-> ev.r],
             !.bad = @ \cup If(ev.t # a.t, {"I05"})
                       \cup If(~VNear(ev.yp, want, mag, FOfStr("1e-14")), {"I05"})
                       \cup If(m.tstop # "none" /\ FLt(Fuzz(m), Along(m, FSub(ev.t, m.tstop))), {"I18"})]

OnJac(m, ev) ==
  LET a == m.att IN
  IF ~a.on \/ a.done THEN [m EXCEPT !.nje = @ + 1, !.bad = @ \cup {"I11"}]
  ELSE [m EXCEPT !.nje = @ + 1, !.nset = @ + 1, !.fresh = TRUE,
          !.cjold = a.cj, !.att.ratio = F1, !.ss = FI(20), !.att.rec = FALSE,
          !.bad = @ \cup If(ev.t # m.res.t \/ ev.t # a.t, {"I05"})
                    \cup If(~RelNear(ev.cj, a.cj, FOfStr("1e-14")), {"I05"})
                    \cup If(ev.y # m.res.y \/ ev.yp # m.res.yp, {"I05"})
                    \* when: asked for at the start of the attempt, or after a failure with an older one
                    \cup If(Trace.nls = "newton" /\ ~(IF m.fresh THEN FALSE ELSE a.call \/ a.rec), {"I11"})]

OnLx(m, ev) == [m EXCEPT !.lx = ev.x]
OnNsol(m, ev) ==
  LET a == m.att
      f == IF a.ratio = F1 THEN F1 ELSE FDiv(F2, FAdd(F1, a.ratio))
      want == VScaleF(f, m.lx)
  IN [m EXCEPT !.bad = @ \cup If(~VNear(ev.x, want, VAbs(want), FOfStr("1e-13")), {"I11"})
                          \cup If(Trace.nls = "newton" /\ ~m.fresh /\ (a.call \/ a.rec), {"I11"})]

OnCtest(m, ev) ==
  LET del == WNorm(ev.del, m.att.w, AllTrue(N))
      toldel == FMul(FOfStr("1e-4"), FMul(FOfStr("1e-4"), NewtTol))
      u == FOfStr("1e-10")
      rate == FPow(FDiv(del, m.oldnrm), FDiv(F1, FI(ev.m)))
      ss == IF ev.m = 0 THEN m.ss ELSE FDiv(rate, FSub(F1, rate))
      E(x) == [e |-> x, s |-> FMul(u, FAbs(x))]
      Z(x) == [e |-> x, s |-> F0]
      \* possible outcomes
      diverge == IF ev.m = 0 THEN {FALSE}
                 ELSE {~x : x \in LeSet(E(rate), Z(FOfStr("0.9")))}
      small == IF ev.m = 0 THEN LeSet(E(del), Z(toldel)) ELSE {FALSE}
      conv == LeSet([e |-> FMul(ss, del), s |-> FMul(FOfStr("1e-8"), FMul(FAbs(ss), del))], Z(NewtTol))
      outs == IF TRUE \in small /\ FALSE \notin small THEN {"conv"}
              ELSE (IF TRUE \in diverge THEN {"rec"} ELSE {})
                   \cup (IF FALSE \in diverge
                         THEN {IF c THEN "conv" ELSE "not" : c \in conv} \cup (IF TRUE \in small THEN {"conv"} ELSE {})
                         ELSE {})
      legal == FIsFinite(del) /\ FLt(F0, del)
  IN [m EXCEPT !.oldnrm = IF ev.m = 0 THEN del ELSE @,
               !.ss = IF ev.m = 0 \/ ev.out = "rec" THEN @ ELSE ss,
               !.att.rec = (~m.fresh /\ (ev.out = "rec" \/ (ev.out = "not" /\ ev.m + 1 >= MaxIters))),
               !.bad = @ \cup If(legal /\ (ev.m > 0 => FLt(F0, m.oldnrm)) /\ ev.out \notin outs, {"I12"})
                         \cup If(ev.w # m.att.w, {"I13"})]

OnAttEnd(m, ev) ==
  [m EXCEPT !.att.done = TRUE, !.att.out = ev.out, !.att.name = ev.name, !.att.ee = ev.ee, !.nni = ev.ni, !.att.rec = FALSE]

\* interpolant of the last step, degree d derivative
InterpOf(m, t, d) ==
  LET k == IF m.kused = 0 THEN 1 ELSE m.kused IN PolyAt(m.hist, k, FSub(t, m.tn), d)
\* glance: the look just beyond an exact zero at the last returned point (or the start), which
\* concerns the functions that vanish there only
OnRoot(m, ev) ==
  LET a == m.att
      clear == ~a.on \/ (a.done /\ a.out = "ok" /\ ~Stuck(m) /\ MayPass(m, a, a.ee) = {TRUE})
      m1 == IF a.on THEN Resolve(m, TRUE) ELSE m
      line == [i \in 1..N |-> FAdd(Trace.y0[i], FMul(ev.t, Trace.yp0[i]))]
      linem == [i \in 1..N |-> FAdd(FAbs(Trace.y0[i]), FAbs(FMul(ev.t, Trace.yp0[i])))]
      sees == IF m1.nst = 0 THEN VNear(ev.y, line, linem, Tight) /\ VNear(ev.yp, Trace.yp0, VAbs(Trace.yp0), Tight)
              ELSE \/ Beyond(m1, ev.t, m1.tn)
                   \/ Beyond(m1, FSub(m1.tn, m1.hused), ev.t)
                   \/ LET P == InterpOf(m1, ev.t, 0)  Q == InterpOf(m1, ev.t, 1) IN
                      VNear(ev.y, P.v, P.m, Tight) /\ VNear(ev.yp, Q.v, Q.m, Tight)
  IN
  [m EXCEPT !.nge = @ + 1,
            !.bad = @ \cup If(clear /\ ~sees, {"I19"}),
            !.evs = Append(@, [t |-> ev.t, g |-> ev.g, old |-> FALSE,
                               glance |-> /\ m.call.on /\ m.call.natt = 0 /\ Beyond(m, ev.t, m.tA)
                                          /\ \E i \in 1..Trace.nroots : FEq(m.gA[i], F0)
                                          /\ \A e \in 1..Len(@) : @[e].old \/ ~Beyond(m, @[e].t, m.tA)])]

\* ----------------------------------------------------------------- events of functions --
Sgn(x) == IF FEq(x, F0) THEN 0 ELSE IF FLt(x, F0) THEN -1 ELSE 1
\* evaluations strictly before t, not before the last returned point, latest of them
Before(m, t) ==
  LET S == {i \in 1..Len(m.evs) : Beyond(m, t, m.evs[i].t) /\ ~Beyond(m, m.tA, m.evs[i].t)} IN
  IF S = {} THEN 0
  ELSE CHOOSE i \in S : \A j \in S : Beyond(m, m.evs[i].t, m.evs[j].t) \/ (m.evs[i].t = m.evs[j].t /\ i >= j)
\* sign of function i before t: at the latest evaluation with a nonzero value, else at the last returned point
SignBefore(m, t, i) ==
  LET S == {e \in 1..Len(m.evs) : Beyond(m, t, m.evs[e].t) /\ ~Beyond(m, m.tA, m.evs[e].t) /\ Sgn(m.evs[e].g[i]) # 0} IN
  IF S # {} THEN Sgn(m.evs[CHOOSE e \in S : \A j \in S : ~Beyond(m, m.evs[j].t, m.evs[e].t)].g[i])
  ELSE Sgn(m.gA[i])

\* a returned point without (ir = 0) or with an event
RootBad(m, ev) ==
  LET nr == Trace.nroots
      root == ev.out = "root"
      b == Before(m, ev.tret)
      ttol == FMul(FOfStr("1.01"), Fuzz2(m, ev.hh))
      near == b # 0 /\ FLe(FAbs(FSub(ev.tret, m.evs[b].t)), FMax(ttol, Fuzz(m)))
      nearA == FLe(FAbs(FSub(ev.tret, m.tA)), FMax(ttol, Fuzz(m)))
      ahead == Beyond(m, ev.tret, m.tA)
      \* function i crosses or vanishes within the tolerance before the returned point
      here(i) == \/ Sgn(ev.g[i]) = 0 /\ SignBefore(m, ev.tret, i) # 0
                 \/ near /\ Sgn(m.evs[b].g[i]) * Sgn(ev.g[i]) < 0
                 \/ nearA /\ Sgn(m.gA[i]) * Sgn(ev.g[i]) < 0
      may(i) == \/ here(i)
                \/ \E e \in 1..Len(m.evs) : /\ Beyond(m, ev.tret, m.evs[e].t) /\ ~Beyond(m, m.tA, m.evs[e].t)
                                            /\ FLe(FAbs(FSub(ev.tret, m.evs[e].t)), FMax(ttol, Fuzz(m)))
                                            /\ Sgn(m.evs[e].g[i]) * Sgn(ev.g[i]) < 0
  IN If(~root /\ ahead /\ \E i \in 1..nr : Sgn(m.gA[i]) * Sgn(ev.g[i]) < 0, {"I09"})
     \cup If(~root /\ ahead /\ \E i \in 1..nr : Sgn(ev.g[i]) = 0 /\ Sgn(m.gA[i]) # 0, {"I09"})
     \cup If(root /\ \E i \in 1..nr : ev.ir[i] = 0 /\ Sgn(m.gA[i]) * Sgn(ev.g[i]) < 0, {"I09"})
     \* the signs seen on the way count, notably the one just beyond an event at an exact zero
     \cup If(ahead /\ \E i \in 1..nr, e \in 1..Len(m.evs) :
                 /\ ((Sgn(m.gA[i]) # 0 /\ ~m.evs[e].glance) \/ (m.irA # <<>> /\ m.irA[i] # 0))
                 /\ (root => ev.ir[i] = 0)
                 /\ Beyond(m, ev.tret, m.evs[e].t)
                 /\ Beyond(m, m.evs[e].t, m.tA)
                 /\ Sgn(m.evs[e].g[i]) * Sgn(ev.g[i]) < 0, {"I09"})
     \cup If(root /\ \A i \in 1..nr : ev.ir[i] = 0, {"I10"})
     \cup If(root /\ ~ahead, {"I10"})
     \cup If(root /\ ahead /\ \E i \in 1..nr : IF ev.ir[i] # 0 THEN ~may(i) ELSE here(i), {"I10"})
     \cup If(root /\ ahead /\ \E i \in 1..nr : ev.ir[i] # 0 /\ may(i)
              /\ ev.ir[i] # (IF Sgn(ev.g[i]) # 0 THEN Sgn(ev.g[i]) ELSE -SignBefore(m, ev.tret, i)), {"I10"})

\* ----------------------------------------------------------------- results --
Interp(m, t, d) == InterpOf(m, t, d)
IsInterp(m, t, yy, yp) ==
  \/ m.nst = 0
  \/ LET a == Interp(m, t, 0)  b == Interp(m, t, 1) IN
     VNear(yy, a.v, a.m, Tight) /\ VNear(yp, b.v, b.m, Tight)


OnRet(m0, ev) ==
  IF Unclear(m0) THEN [m0 EXCEPT !.over = TRUE] ELSE
  LET acc == m0.att.on /\ m0.att.done /\ ev.tn = m0.att.t
             /\ (Stuck(m0) => m0.att.out = "ok" /\ MayPass(m0, m0.att, m0.att.ee) = {TRUE})
      m1 == Resolve(m0, acc)
      moved == FAbs(FSub(ev.tn, m0.tn))
      ended == m0.att.on /\ m0.att.done /\ ~acc     \* the call ended with a failed attempt
      panic == ev.out = "panic"
      good == ev.out \in {"success", "tstop", "root"}
      first == m1.nst = 0
      m2 == IF panic THEN m1
            ELSE IF m1.why = "step" /\ ~first THEN
                 LET f == Follow(m1, ev.kk, ev.hh, Culprits(m1)) IN
                 [f EXCEPT !.next = {Exact(ev.kk, ev.hh, F1, f.phase)}, !.why = "step"]
            ELSE IF first THEN [m1 EXCEPT !.next = Free, !.why = "start"]
            ELSE [m1 EXCEPT !.next = Free, !.why = "end"]
      fz == Fuzz2(m2, ev.hh)
      call == m2.call
      \* -------- I01
      b1 == If(~panic /\ ev.tn # m2.tn, {"I01", "I06"})
            \cup If(~panic /\ Beyond(m2, call.tn, ev.tn), {"I01"})
            \cup If(good /\ FLt(fz, Along(m2, FSub(ev.tret, ev.tn))), {"I01"})
            \cup If(ev.out = "success" /\ call.m = "N" /\ ev.tret # call.tout, {"I01"})
            \cup If(ev.out = "success" /\ call.m = "N" /\ FLt(fz, Along(m2, FSub(ev.tret, ev.tn))), {"I01"})
            \cup If(ev.out = "success" /\ call.m = "N" /\ ~IsInterp(m2, ev.tret, ev.yy, ev.yp), {"I01"})
            \cup If(ev.out = "continue", {"I01"})
      \* -------- I02
      interrupted == call.inner
      b2 == If(ev.out = "success" /\ call.m = "O" /\ ev.tret # ev.tn, {"I02"})
            \cup If(ev.out = "success" /\ call.m = "O" /\ m2.steps # (IF interrupted THEN 0 ELSE 1), {"I02"})
            \cup If(good /\ m2.steps > 0 /\ ~RelNear(ev.hu, m2.hused, FOfStr("1e-13")), {"I02"})
            \cup If(good /\ m2.steps > 0 /\ ev.ku # m2.kused, {"I02", "I08"})
            \cup If(ev.out = "success" /\ call.m = "O" /\ ~first
                    /\ LET a == Interp(m2, ev.tret, 0) IN ~VNear(ev.yy, a.v, a.m, Tight), {"I02"})
      \* -------- I07: errors at the end of a failed attempt, and only there
      mustEnd == ended /\ m1.why = "end"
      b7 == If(mustEnd /\ ~panic /\ (good \/ ev.tret # m1.tn), {"I07"})
            \cup If(ended /\ m1.why # "end", {"I07"})
            \cup If(panic, {"I07"} \cup If(m0.evs # <<>> /\ ~m0.att.on, {"I09", "I10"}))
            \cup If(~mustEnd /\ ~panic /\ ~good /\ ev.out # "continue"
                    /\ (call.natt > 0 /\ ~(m2.steps >= MaxSteps) /\ ev.out \notin {"err:IllegalInput", "err:TooMuchAccuracy", "err:CloseRoots"}), {"I07"})
      \* -------- I13
      nrm == WNorm(m2.hist[1].y, Wt(m2.hist[1].y), Trace.mask)
      tolsf == FMul(Eps, nrm)
      b13 == If(m2.badw /\ ~panic /\ (good \/ ev.tret # m2.tn), {"I13"})
             \cup If(ev.out = "err:TooMuchAccuracy" /\ (ev.tret # m2.tn), {"I13"})
             \cup If(ev.out = "err:TooMuchAccuracy" /\ FLt(tolsf, FSub(F1, FOfStr("1e-9"))) /\ Trace.tolk # "bad", {"I13"})
             \cup If(ev.out = "err:TooMuchAccuracy" /\ FIsFinite(tolsf) /\ Trace.tolk # "bad"
                     /\ ~RelNear(ev.tolsf, FMul(FI(10), tolsf), FOfStr("1e-9")), {"I13"})
      \* -------- I14
      b14 == If(m2.steps > MaxSteps, {"I14"})
             \cup If(m2.steps = MaxSteps /\ ~good /\ ~ended /\ ~m2.badw /\ ev.out # "err:TooMuchAccuracy"
                     /\ ev.tret # m2.tn, {"I14"})
             \cup If(ev.out = "err:IllegalInput" /\ m2.steps # MaxSteps /\ m2.steps > 0 /\ ~m2.badw /\ ~ended
                     /\ LegalW(Wt(m2.hist[1].y)), {"I14"})
      \* -------- I16
      b16 == If(~panic /\ ~( /\ ev.nst = m2.nst /\ ev.nre = m2.nre /\ ev.nje = m2.nje /\ ev.nset = m2.nset
                             /\ ev.netf = m2.netf /\ ev.ncfn = m2.ncfn /\ ev.nni = m2.nni /\ ev.nge = m2.nge
                             /\ ev.nlr = 0 /\ ev.nli = 0), {"I16"})
             \cup If(~panic /\ (ev.netf # m2.netf \/ ev.ncfn # m2.ncfn), {"I07"})
      \* -------- I21: what is reported of the last and the next step
      b21 == If(~panic /\ ~first /\ ~( ev.ku = m2.kused /\ RelNear(ev.hu, m2.hused, FOfStr("1e-12"))), {"I21"})
             \cup If(~panic /\ ~first /\ ~RelNear(ev.h0u, m2.h0, FOfStr("1e-12")), {"I21"})
             \cup If(~panic /\ ev.tn # m2.tn, {"I21"})
      \* -------- I24: errors name their cause and the times concerned
      isErr == ~panic /\ ~good
      b24 == If(mustEnd /\ isErr
                /\ CASE m0.att.out = "rec" -> ev.out # "err:ConvergenceFail"
                     [] m0.att.out = "ok" -> ev.out \in {"err:ConvergenceFail", "err:IllegalInput", "err:TooMuchAccuracy",
                                                         "err:CloseRoots", "err:BadStopTime", "err:ResidualFail", "err:ConstraintFail"}
                     [] OTHER -> ev.out # "err:" \o m0.att.name, {"I24"})
             \cup If(~mustEnd /\ ev.out = "err:ConvergenceFail", {"I24"})
             \cup If(ev.out = "err:TooMuchAccuracy" /\ ev.pay.t # m2.tn, {"I24"})
             \cup If(ev.out = "err:CloseRoots" /\ ev.pay.t # m2.lastt, {"I24"})
             \cup If(ev.out = "err:BadTimeValue"
                     /\ ~( /\ ev.pay.t = call.tout /\ ev.pay.tcurr = m2.tn
                           /\ Near(ev.pay.tdiff, FSub(m2.tn, m2.hused), FMul(Eps, FAbs(m2.tn)))), {"I24"})
             \cup If(ev.out = "err:BadStopTime" /\ (ev.pay.t # call.tn \/ ev.pay.tstop # m2.tstop), {"I24"})
      \* -------- I18
      \* the step of an event is finished first, also when its end is beyond a stop time set since
      finishing == call.inner /\ call.natt = 0 /\ (call.m = "O" \/ ev.out = "root")
                   /\ m2.tstop # "none" /\ Beyond(m2, call.tn, m2.tstop)
      b18 == If(m2.tstop # "none" /\ good /\ ~finishing /\ FLt(fz, Along(m2, FSub(ev.tret, m2.tstop))), {"I18"})
             \cup If(m2.tstop # "none" /\ ~panic /\ ~first /\ call.natt > 0 /\ FLt(fz, Along(m2, FSub(ev.tn, m2.tstop))), {"I18"})
             \cup If(ev.out = "tstop" /\ (m2.tstop = "none" \/ ev.tret # m2.tstop), {"I18"})
             \cup If(ev.out = "tstop" /\ ~IsInterp(m2, ev.tret, ev.yy, ev.yp), {"I18"})
             \cup If(m2.tstop # "none" /\ ev.out = "success" /\ m2.steps > 0
                     /\ Near(ev.tn, m2.tstop, FMul(FHalf, fz))
                     /\ (call.m = "O" \/ Beyond(m2, call.tout, ev.tn)), {"I18"})
             \* a stop time behind the current time
             \cup If(m2.tstop # "none" /\ ~finishing /\ (good \/ call.natt > 0) /\ FLt(fz, Along(m2, FSub(call.tn, m2.tstop))), {"I18"})
             \cup If(ev.out = "err:BadStopTime" /\ (m2.tstop = "none" \/ ~Beyond(m2, call.tn, m2.tstop)), {"I18"})
      \* -------- events
      b10 == If(ev.out = "root" /\ call.m = "N" /\ Beyond(m2, ev.tret, call.tout), {"I10"})
             \cup If(ev.out = "root" /\ ~IsInterp(m2, ev.tret, ev.yy, ev.yp), {"I10", "I03"})
      \* at a stop time the internal time may fall short by rounding: what happens in between comes later
      short == good /\ ev.out # "root" /\ Beyond(m2, ev.tret, ev.tn)
      bg == IF good /\ ~short /\ Trace.nroots > 0 THEN RootBad(m2, ev) ELSE {}
      ahead == good /\ ~short /\ (Beyond(m2, ev.tret, m2.tA) \/ m2.lastout = "none" \/ ev.out = "root")
  IN [m2 EXCEPT
       !.bad = @ \cup b1 \cup b2 \cup b7 \cup b13 \cup b14 \cup b16 \cup b18 \cup b21 \cup b24 \cup b10 \cup bg,
       !.call.on = FALSE,
       !.att = NoAtt, !.nef = 0, !.ncf = 0,
       !.h = ev.hh,
       !.rep = IF good /\ ~first THEN <<ev.kk, ev.hh>> ELSE <<>>,
       !.lastt = IF panic \/ FIsNaN(ev.tret) THEN @ ELSE ev.tret,
       !.lastout = ev.out,
       !.tstop = IF ev.out = "tstop" THEN "none" ELSE @,
       !.gA = IF ahead THEN ev.g ELSE @,
       !.tA = IF ahead THEN ev.tret ELSE @,
       !.irA = IF ~ahead THEN @ ELSE IF ev.out = "root" THEN ev.ir ELSE <<>>,
       !.evs = IF ahead
                THEN LET keep == SelectSeq(@, LAMBDA e : e.t = ev.tn /\ Beyond(m2, ev.tn, ev.tret)) IN
                [i \in 1..Len(keep) |->
                   [keep[i] EXCEPT !.old = TRUE]] ELSE @]

\* interpolation requests
OnInterp(m, ev) ==
  LET fz == Fuzz(m)
      early == FSub(m.tn, m.hused)
      behind == Along(m, FSub(early, ev.th))      \* > 0: before the last step
      k == ev.k
      mustErr == k > m.kused \/ (m.nst > 0 /\ FLt(FMul(F2, fz), behind))
      mustOk == k <= m.kused /\ (m.nst = 0 \/ FLt(FMul(FHalf, behind), FMul(FQuarter, fz)))
      inside == m.nst > 0 /\ FLe(behind, FMul(FHalf, fz)) /\ ~Beyond(m, ev.th, m.tn)
      d == IF ev.e = "dky" THEN ev.d ELSE ev.yy
      P == Interp(m, ev.th, k)
      Q == Interp(m, ev.th, 1)
      b == If(mustErr /\ ev.out = "ok", {"I03"})
           \cup If(mustOk /\ ev.out # "ok", {"I03"})
           \cup If(~mustErr /\ ev.out = "ok" /\ inside /\ ~VNear(d, P.v, P.m, Tight), {"I03"})
           \cup If(~mustErr /\ ev.out = "ok" /\ inside /\ ev.e = "getsol" /\ ~VNear(ev.yp, Q.v, Q.m, Tight), {"I03"})
           \cup If(ev.out = "panic", {"I03"})
           \cup If(ev.tn # m.tn, {"I03"})
           \cup If(ev.out # "ok" /\ ev.out # "panic"
                   /\ IF k > m.kused /\ ev.e = "dky" THEN ev.out # "err:BadK"
                      ELSE \/ ev.out # "err:BadTimeValue"
                           \/ ev.pay.t # ev.th \/ ev.pay.tcurr # m.tn
                           \/ ~Near(ev.pay.tdiff, early, FMul(Eps, FAbs(m.tn))), {"I24"})
           \cup If(~( /\ ev.nst = m.nst /\ ev.nre = m.nre /\ ev.nje = m.nje /\ ev.nset = m.nset
                      /\ ev.netf = m.netf /\ ev.ncfn = m.ncfn /\ ev.nni = m.nni /\ ev.nge = m.nge), {"I16"})
  IN [m EXCEPT !.bad = @ \cup b]

MStep(m, ev) ==
  IF m.over THEN m
  ELSE
  CASE ev.e = "solve" -> OnSolve(m, ev)
    [] ev.e = "att" -> OnAtt(m, ev)
    [] ev.e = "res" -> OnRes(m, ev)
    [] ev.e = "jac" -> OnJac(m, ev)
    [] ev.e = "lu" -> m
    [] ev.e = "lx" -> OnLx(m, ev)
    [] ev.e = "nsol" -> OnNsol(m, ev)
    [] ev.e = "ctest" -> OnCtest(m, ev)
    [] ev.e = "attend" -> OnAttEnd(m, ev)
    [] ev.e = "root" -> OnRoot(m, ev)
    [] ev.e = "badw" -> [m EXCEPT !.badw = TRUE]
    [] ev.e = "ret" -> IF ev.out = "panic" /\ ev.msg = "runaway" THEN m        \* end of the recording
                       ELSE IF ev.out = "panic" /\ ev.msg = "rootloop"       \* endless search for an event
                       THEN Flag(m, {"I09", "I10"})
                       ELSE OnRet(m, ev)
    [] ev.e \in {"getsol", "dky"} -> OnInterp(m, ev)
    [] ev.e = "tstop" -> [m EXCEPT !.tstop = ev.t]
=============================================================================
