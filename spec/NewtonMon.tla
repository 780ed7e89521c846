----------------------------- MODULE NewtonMon -----------------------------
(* The properties N01..N07 of the nonlinear solver, written over the events  *)
(* that cross its boundary: the calls it makes to the user's routines, with  *)
(* arguments and answers, and the start and end of each solve.               *)
(*                                                                           *)
(* The same operators judge the design (MC_Newton: every behaviour of        *)
(* Newton.tla) and the implementation (NewtonObs: recorded executions of     *)
(* crates/nonlinear).  They mention nothing internal to either.              *)
(*                                                                           *)
(* Events                                                                    *)
(*   [e|->"start", y0, w, tol, call, ni, nf, cur]       a call of Newton::solve        *)
(*   [e|->"sys",    y, res, out]              out: "ok" "rec" or fatal       *)
(*   [e|->"setup",  y, f, jbad, out]          out: "true" "false" "rec" ...  *)
(*   [e|->"lsolve", y, b, x, out]             out: "ok" "rec" ...            *)
(*   [e|->"ctest",  y, del, tol, w, cur, ni, nf, out]  "conv" "not" "rec" ...*)
(*   [e|->"end",    y, ni, nf, out]  out: "ok", "rec", fatal code, "runaway" *)
(*                                   (call budget exhausted) or "panic"      *)
(* A fatal code names the error variant and its payload.                     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS VAdd(_, _, _),   \* VAdd(prec, u, v): componentwise sum in precision prec
          VNeg(_),         \* componentwise negation
          VEq(_, _)        \* numerical equality of vectors

PropIds == {"N01", "N02", "N03", "N04", "N05", "N06", "N07"}

NoEv == [e |-> "none", out |-> "none"]

MInit(maxit, prec) ==
  [ maxit |-> IF maxit < 1 THEN 1 ELSE maxit, prec |-> prec,
    y0 |-> <<>>, w |-> <<>>, tol |-> "", call |-> FALSE,
    att |-> 0,          \* retries made in this solve
    cury |-> <<>>,      \* current iterate
    lastx |-> <<>>,     \* correction of the last linear solve
    lastres |-> <<>>, resAt |-> <<>>,   \* last residual and where it was computed
    nsys |-> 0,         \* residuals computed since attempt start / last linear solve
    asys |-> 0,         \* residuals computed in this attempt
    nset |-> 0,         \* setups in this attempt
    nls |-> 0,          \* linear solves in this attempt
    its |-> 0,          \* corrections rejected in this attempt
    pend |-> "none",    \* outcome waiting for the solver's reaction
    extra |-> FALSE,    \* a residual at the current iterate after the last allowed iteration
    jcur |-> FALSE,     \* the Jacobian is current
    ni |-> 0, nf |-> 0, \* what the statistics should be
    last |-> NoEv,
    bad |-> {} ]

Transient == {"none", "rec", "exh", "conv"}

\* The event belongs to a new attempt
NewAtt(m, ev) ==
  /\ ev.e # "end"
  /\ \/ m.pend = "rec"
     \/ m.pend = "exh" /\ ~(ev.e = "sys" /\ ~VEq(ev.y, m.y0) /\ VEq(ev.y, m.cury))

RetryDue(m) == m.att = 0 /\ ~m.jcur

\* Flags raised by the solver's reaction to a pending outcome, whatever the next call is
ReactBad(m, ev) ==
     (IF m.pend = "conv" THEN {"N02"} ELSE {})
  \union (IF m.pend \notin Transient \union {"exh2"} THEN {"N06"} ELSE {})
  \union (IF m.pend \in {"rec", "exh"} /\ ~RetryDue(m) /\ NewAtt(m, ev) THEN {"N06"} ELSE {})
  \union (IF NewAtt(m, ev) /\ m.att >= 1 THEN {"N01"} ELSE {})

BeginAtt(m) ==
  [m EXCEPT !.att = @ + 1, !.cury = m.y0, !.nsys = 0, !.asys = 0, !.nset = 0, !.nls = 0,
            !.its = 0, !.pend = "none", !.extra = FALSE, !.nf = @ + 1]

\* outcome of a user routine that did not simply succeed
PendOf(ev, okset) == IF ev.out \in okset THEN "none" ELSE ev.out

If(c, p) == IF c THEN {p} ELSE {}

SysStep(m, ev) ==
  LET ext == m.pend = "exh"      \* only reached when not a new attempt
      bad == If(m.asys = 0 /\ ~VEq(ev.y, m.y0), "N03")
  IN [m EXCEPT !.bad = @ \union bad,
               !.nsys = @ + 1, !.asys = @ + 1,
               !.lastres = ev.res, !.resAt = ev.y,
               !.extra = ext,
               !.pend = IF ext THEN "exh2" ELSE PendOf(ev, {"ok"}),
               !.last = ev]

SetupStep(m, ev) ==
  LET bad == If(\/ m.nset > 0
                \/ m.att = 0 /\ ~m.call
                \/ ev.jbad # (m.att > 0)
                \/ m.nls > 0
                \/ m.asys = 0
                \/ ~VEq(ev.y, m.y0)
                \/ m.asys > 0 /\ ~VEq(ev.f, m.lastres)
                \/ m.asys > 0 /\ ~VEq(m.resAt, m.y0), "N05")
  IN [m EXCEPT !.bad = @ \union bad,
               !.nset = @ + 1,
               !.jcur = IF ev.out = "true" THEN TRUE ELSE IF ev.out = "false" THEN FALSE ELSE @,
               !.pend = PendOf(ev, {"true", "false"}),
               !.last = ev]

LsolveStep(m, ev) ==
  LET bad == If(~VEq(ev.y, m.cury), "N03")
        \union If(m.nls + 1 > m.maxit, "N01")
        \union If(\/ m.nsys # 1
                  \/ ~VEq(m.resAt, ev.y)
                  \/ ~VEq(ev.b, VNeg(m.lastres)), "N04")
        \union If(m.nls = 0 /\ m.nset # (IF m.att > 0 \/ m.call THEN 1 ELSE 0), "N05")
  IN [m EXCEPT !.bad = @ \union bad,
               !.nls = @ + 1, !.ni = @ + 1, !.nsys = 0,
               !.lastx = ev.x,
               !.cury = IF ev.out = "ok" THEN VAdd(m.prec, @, ev.x) ELSE @,
               !.pend = PendOf(ev, {"ok"}),
               !.last = ev]

CtestStep(m, ev) ==
  LET bad == If(\/ ~(m.last.e = "lsolve" /\ m.last.out = "ok")
                \/ ~VEq(ev.y, m.cury)
                \/ ~VEq(ev.del, m.lastx)
                \/ ev.tol # m.tol
                \/ ~VEq(ev.w, m.w), "N03")
        \union If(ev.cur # m.its \/ ev.ni # m.ni \/ ev.nf # m.nf, "N07")
      its == IF ev.out = "not" THEN m.its + 1 ELSE m.its
  IN [m EXCEPT !.bad = @ \union bad,
               !.its = its,
               !.pend = CASE ev.out = "conv" -> "conv"
                          [] ev.out = "not"  -> IF its >= m.maxit THEN "exh" ELSE "none"
                          [] OTHER -> ev.out,
               !.last = ev]

\* what follows a residual evaluated after the last allowed iteration tells what went wrong
ExtraBad(m, ev) ==
  IF m.pend # "exh2" THEN {}
  ELSE CASE ev.e = "lsolve" -> {"N01"}
         [] ev.e = "setup"  -> {"N03"}
         [] OTHER           -> {"N04"}

StartStep(m, ev) ==
  [m EXCEPT !.y0 = ev.y0, !.w = ev.w, !.tol = ev.tol, !.call = ev.call,
            !.att = 0, !.cury = ev.y0, !.lastx = <<>>, !.lastres = <<>>, !.resAt = <<>>,
            !.nsys = 0, !.asys = 0, !.nset = 0, !.nls = 0, !.its = 0,
            !.pend = "none", !.extra = FALSE, !.last = ev,
            \* a new solver has counted nothing; from then on nothing counts between solves
            !.bad = @ \union If(ev.ni # m.ni \/ ev.nf # m.nf \/ (m.last = NoEv /\ ev.cur # 0), "N07")]

EndStep(m, ev) ==
  IF ev.out \in {"runaway", "panic"} THEN [m EXCEPT !.bad = @ \union {"N01"}, !.last = ev]
  ELSE
  LET okNow == m.last.e = "ctest" /\ m.last.out = "conv"
      nf    == m.nf + (IF ev.out = "ok" THEN 0 ELSE 1)
      bad == If((ev.out = "ok") # okNow \/ (ev.out = "ok" /\ ~VEq(ev.y, m.last.y)), "N02")
        \union If(/\ ev.out # "ok"
                  /\ ~okNow
                  /\ IF m.pend \in {"rec", "exh", "exh2"}
                       THEN ev.out # "rec" \/ (m.pend # "exh2" /\ RetryDue(m))
                       ELSE ev.out # m.pend, "N06")
        \union If(ev.ni # m.ni \/ ev.nf # nf, "N07")
  IN [m EXCEPT !.bad = @ \union bad, !.nf = nf,
               !.jcur = IF ev.out = "ok" THEN FALSE ELSE @,
               !.pend = "none", !.last = ev]

MStep(m, ev) ==
  IF ev.e = "start" THEN StartStep(m, ev)
  ELSE LET m0 == [m EXCEPT !.bad = @ \union ExtraBad(m, ev)
                                  \union (IF ev.e = "end" THEN {} ELSE ReactBad(m, ev))]
           m1 == IF m.pend = "exh2" /\ ev.e \in {"sys", "setup"} THEN BeginAtt(m0)
                 ELSE IF m.pend = "exh2" /\ ev.e = "lsolve" THEN [m0 EXCEPT !.pend = "none"]
                 ELSE IF NewAtt(m, ev) THEN BeginAtt(m0) ELSE m0
       IN CASE ev.e = "sys"    -> SysStep(m1, ev)
            [] ev.e = "setup"  -> SetupStep(m1, ev)
            [] ev.e = "lsolve" -> LsolveStep(m1, ev)
            [] ev.e = "ctest"  -> CtestStep(m1, ev)
            [] ev.e = "end"    -> EndStep(m1, ev)
=============================================================================
