------------------------------- MODULE IdaCtl -------------------------------
(* The control decisions of the integrator: order, step size, failures.      *)
(* Shared by the design model (IdaDesign), where the numbers behind a         *)
(* decision are left open, and by the monitor of recorded runs (IdaMon),      *)
(* where they are computed.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

MaxOrder == 5
MaxErrFails == 10
MaxConvFails == 10
MaxSteps == 500

\* steps in a row taken with the order and size of this attempt, this one included; the count
\* stops two above the order last used
Ns(same, ns, kused) == IF same THEN (IF ns + 1 < kused + 2 THEN ns + 1 ELSE kused + 2) ELSE 1

\* what the estimates may suggest before the local error test
Suggestions(k) == IF k > 1 THEN {k - 1, k} ELSE {k}

\* the start-up phase (0) ends with the first failure, the first suggestion to lower the order, or
\* the highest order
PhaseAfterStep(phase, k, knew) == IF knew = k - 1 \/ k = MaxOrder THEN 1 ELSE phase

\* an increase of the order is considered only after k+2 equal steps, and not directly after
\* another increase
MayRaise(k, knew, ns, kdiff) ==
  /\ knew # k - 1
  /\ k < MaxOrder
  /\ k + 1 < ns
  /\ kdiff # 1

\* orders possible after an accepted step outside the start-up phase
NextOrders(k, knew, ns, kdiff) ==
  IF knew = k - 1 THEN {k - 1}
  ELSE IF ~MayRaise(k, knew, ns, kdiff) THEN {k}
  ELSE (IF k > 1 THEN {k - 1} ELSE {}) \cup {k, k + 1}

\* order after the n-th local error test failure of a step
OrderAfterErrFail(n, knew) == IF n <= 2 THEN knew ELSE 1
=============================================================================
