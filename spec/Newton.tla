------------------------------- MODULE Newton -------------------------------
(* Design of the modified-Newton nonlinear solver of crates/nonlinear        *)
(* (Newton::solve), one action per call it makes to the user's routines.     *)
(* The user's routines are the environment: every answer they may give is a  *)
(* nondeterministic choice.  Vectors are abstracted to integers: the n-th    *)
(* linear solve of a solve answers 2^n and the n-th residual is 3n+1, so     *)
(* different histories give different iterates.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxItersSet,   \* iteration limits considered
          MaxSolves,     \* solves performed with one solver
          Fatal,         \* unrecoverable error codes
          RetryLimit,    \* TRUE: the design; FALSE: the retry rule before the fix (for self-test)
          KeepHist       \* record the answers (used to generate replay scripts)

VAddI(prec, u, v) == <<u[1] + v[1]>>
VNegI(u) == <<-u[1]>>
VEqI(u, v) == u = v

INSTANCE NewtonMon WITH VAdd <- VAddI, VNeg <- VNegI, VEq <- VEqI

VARIABLES pc, maxit, jcur, curiter, niters, nconvfails,  \* the solver
          call, jbad, y, delta, nth, nres,               \* locals of one solve
          err,                                           \* outcome being returned
          solves, m, hist, jcur0
vars == <<pc, maxit, jcur, curiter, niters, nconvfails, call, jbad, y, delta, nth, nres, err,
          solves, m, hist, jcur0>>

Y0 == <<1000>>
Tol == "tol"
W == <<7>>

Init ==
  /\ maxit \in MaxItersSet
  /\ pc = "idle" /\ jcur = FALSE /\ curiter = 0 /\ niters = 0 /\ nconvfails = 0
  /\ call = FALSE /\ jbad = FALSE /\ y = <<0>> /\ delta = <<0>> /\ nth = 0 /\ nres = 0
  /\ err = "" /\ solves = 0 /\ hist = <<>> /\ jcur0 = FALSE
  /\ m = MInit(maxit, 64)

Emit(ev) == m' = MStep(m, ev)
Note(k, o) == hist' = IF KeepHist THEN Append(hist, <<k, o>>) ELSE hist

Start ==
  /\ pc = "idle" /\ solves < MaxSolves
  /\ \E c \in BOOLEAN :
       /\ call' = c
       /\ Emit([e |-> "start", y0 |-> Y0, w |-> W, tol |-> Tol, call |-> c, ni |-> niters, nf |-> nconvfails, cur |-> curiter])
  /\ jbad' = FALSE /\ nth' = 0 /\ nres' = 0 /\ pc' = "sys0" /\ solves' = solves + 1
  /\ jcur0' = jcur /\ hist' = <<>>
  /\ UNCHANGED <<maxit, jcur, curiter, niters, nconvfails, y, delta, err>>

\* a failed attempt: retry or return
Fail(o) ==
  /\ nconvfails' = nconvfails + 1
  /\ IF o = "rec" /\ ~jcur' /\ (~RetryLimit \/ ~jbad)
       THEN /\ call' = TRUE /\ jbad' = TRUE /\ pc' = "sys0" /\ err' = ""
       ELSE /\ pc' = "fail" /\ err' = o /\ UNCHANGED <<call, jbad>>

ResV == <<3 * (nres + 1) + 1>>

Sys0 ==
  /\ pc = "sys0"
  /\ \E o \in {"ok", "rec"} \union Fatal :
       /\ Emit([e |-> "sys", y |-> Y0, res |-> ResV, out |-> o]) /\ Note("sys", o)
       /\ nres' = nres + 1 /\ jcur' = jcur
       /\ IF o = "ok"
            THEN /\ delta' = ResV /\ pc' = IF call THEN "setup" ELSE "load"
                 /\ UNCHANGED <<nconvfails, call, jbad, err>>
            ELSE Fail(o) /\ UNCHANGED delta
  /\ UNCHANGED <<maxit, curiter, niters, y, nth, solves, jcur0>>

Setup ==
  /\ pc = "setup"
  /\ \E o \in {"true", "false", "rec"} \union Fatal :
       /\ Emit([e |-> "setup", y |-> Y0, f |-> delta, jbad |-> jbad, out |-> o]) /\ Note("setup", o)
       /\ IF o \in {"true", "false"}
            THEN jcur' = (o = "true") /\ pc' = "load" /\ UNCHANGED <<nconvfails, call, jbad, err>>
            ELSE jcur' = jcur /\ Fail(o)
  /\ UNCHANGED <<maxit, curiter, niters, y, delta, nth, nres, solves, jcur0>>

Load ==
  /\ pc = "load" /\ curiter' = 0 /\ y' = Y0 /\ pc' = "lsolve"
  /\ UNCHANGED <<maxit, jcur, niters, nconvfails, call, jbad, delta, nth, nres, err, solves, m, hist, jcur0>>

Lsolve ==
  /\ pc = "lsolve"
  /\ \E o \in {"ok", "rec"} \union Fatal :
       LET x == <<2 ^ nth>> IN
       /\ Emit([e |-> "lsolve", y |-> y, b |-> VNegI(delta), x |-> x, out |-> o]) /\ Note("lsolve", o)
       /\ niters' = niters + 1 /\ nth' = nth + 1 /\ delta' = x /\ jcur' = jcur
       /\ IF o = "ok"
            THEN y' = VAddI(64, y, x) /\ pc' = "ctest" /\ UNCHANGED <<nconvfails, call, jbad, err>>
            ELSE y' = y /\ Fail(o)
  /\ UNCHANGED <<maxit, curiter, nres, solves, jcur0>>

Ctest ==
  /\ pc = "ctest"
  /\ \E o \in {"conv", "not", "rec"} \union Fatal :
       /\ Emit([e |-> "ctest", y |-> y, del |-> delta, tol |-> Tol, w |-> W,
                cur |-> curiter, ni |-> niters, nf |-> nconvfails, out |-> o]) /\ Note("ctest", o)
       /\ CASE o = "conv" -> /\ jcur' = FALSE /\ pc' = "done" /\ err' = "ok"
                             /\ UNCHANGED <<curiter, nconvfails, call, jbad>>
            [] o = "not"  -> /\ curiter' = curiter + 1 /\ jcur' = jcur
                             /\ IF curiter + 1 >= maxit THEN Fail("rec")
                                ELSE pc' = "sys" /\ UNCHANGED <<nconvfails, call, jbad, err>>
            [] OTHER      -> jcur' = jcur /\ curiter' = curiter /\ Fail(o)
  /\ UNCHANGED <<maxit, niters, y, delta, nth, nres, solves, jcur0>>

Sys ==
  /\ pc = "sys"
  /\ \E o \in {"ok", "rec"} \union Fatal :
       /\ Emit([e |-> "sys", y |-> y, res |-> ResV, out |-> o]) /\ Note("sys", o)
       /\ nres' = nres + 1 /\ jcur' = jcur
       /\ IF o = "ok" THEN delta' = ResV /\ pc' = "lsolve" /\ UNCHANGED <<nconvfails, call, jbad, err>>
          ELSE UNCHANGED delta /\ Fail(o)
  /\ UNCHANGED <<maxit, curiter, niters, y, nth, solves, jcur0>>

End ==
  /\ pc \in {"done", "fail"}
  /\ Emit([e |-> "end", y |-> y, ni |-> niters, nf |-> nconvfails, out |-> err])
  /\ Note("end", err)
  /\ pc' = "idle"
  /\ UNCHANGED <<maxit, jcur, curiter, niters, nconvfails, call, jbad, y, delta, nth, nres, err, solves, jcur0>>

Next == Start \/ Sys0 \/ Setup \/ Load \/ Lsolve \/ Ctest \/ Sys \/ End

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
TypeOK == pc \in {"idle", "sys0", "setup", "load", "lsolve", "ctest", "sys", "done", "fail"}

Holds(p) == p \notin m.bad
N01 == Holds("N01")
N02 == Holds("N02")
N03 == Holds("N03")
N04 == Holds("N04")
N05 == Holds("N05")
N06 == Holds("N06")
N07 == Holds("N07")

\* N01 as liveness: a solve that was started returns
Terminates == (pc = "sys0") ~> (pc = "idle")

\* The statistics never decrease and the monitor's view of the Jacobian is the solver's
JcurAgrees == pc \in {"idle", "sys0", "setup", "load", "lsolve", "ctest", "sys"} => m.jcur = jcur

\* N08 as a design property: nothing but jcur and the statistics survives a solve.
\* (Curiter, delta and y are overwritten before they are read.)
\* Checked by the pair specification NewtonPair on the implementation.

\* used by the generator: print every completed solve as a script
EmitScripts ==
  (pc = "idle" /\ Len(hist) > 0) =>
     PrintT(<<"SCRIPT", maxit, m.call, jcur0, hist>>)
=============================================================================
