----------------------------- MODULE IdaDesign -----------------------------
(* The step loop of the integrator: order, step size, failures, limits, and   *)
(* the bookkeeping that makes a step attempt extrapolate the accepted         *)
(* history.  The numbers are left open: every answer of the nonlinear solver, *)
(* every verdict of the error test and every choice the estimates may lead to *)
(* is possible.                                                               *)
(*                                                                            *)
(* A step size is a name from Sizes; two attempts have the same size iff they *)
(* have the same name.  psi[i] is the sum of the i+1 latest step sizes, kept  *)
(* as the sequence of its terms.  Of a column i of scaled differences we keep *)
(* the factors psi terms it is scaled for: those of the last accepted step    *)
(* ("plain") or those of the attempt ("star").                                *)
(*                                                                            *)
(* Orders, counters and limits are those of IdaCtl, shared with the monitor   *)
(* of recorded runs.                                                          *)
EXTENDS IdaCtl, TLC
CONSTANTS Sizes, EF, CF, MS,      \* names of sizes; limits on failures of each kind, on steps per call
          MaxNst, MaxCalls,       \* bounds of the exploration
          Props,                  \* which properties to check
          Flaw                    \* "none", or a design fault that the properties have to expose

VARIABLE s
MO == MaxOrder
Last(q, n) == SubSeq(q, 1, IF Len(q) < n THEN Len(q) ELSE n)
None == 0

Start ==
  [pc |-> "idle", kk |-> 0, kused |-> 0, hh |-> None, hused |-> None, ns |-> 0, phase |-> 0, knew |-> 0,
   psi |-> [i \in 0..MO |-> <<>>], star |-> {}, saved |-> [psi |-> [i \in 0..MO |-> <<>>], ns |-> 0],
   nst |-> 0, steps |-> 0, nef |-> 0, ncf |-> 0, netf |-> 0, ncfn |-> 0, calls |-> 0, out |-> "none",
   \* what really happened
   hist |-> <<>>,         \* sizes of the latest steps
   equal |-> 0,           \* number of latest steps of the same order and size
   lastk |-> 0,           \* order of the latest step
   clean |-> TRUE,        \* no failure and no lower order suggested so far, order five not reached
   errs |-> 0, convs |-> 0, tries |-> 0,
   errsNow |-> 0, convsNow |-> 0,   \* failures of the step under way
   inCall |-> 0, jump |-> "none"]

Init == s = Start

Call ==
  /\ s.pc = "idle" /\ s.calls < MaxCalls
  /\ s' \in IF s.nst = 0
            THEN {[s EXCEPT !.pc = "attempt", !.calls = @ + 1, !.steps = 0, !.nef = 0, !.ncf = 0, !.tries = 0, !.inCall = 0, !.errsNow = 0, !.convsNow = 0,
                            !.hh = h, !.kk = 1, !.kused = 0, !.hused = None, !.phase = 0, !.ns = 0,
                            !.psi[0] = <<h>>, !.clean = TRUE] : h \in Sizes}
            ELSE {[s EXCEPT !.pc = "attempt", !.calls = @ + 1, !.steps = 0, !.nef = 0, !.ncf = 0, !.tries = 0, !.inCall = 0,
                         !.errsNow = 0, !.convsNow = 0]}

\* coefficients of an attempt: psi is extended by the new step, from the front
RECURSIVE Shift(_, _, _, _, _)
Shift(psi, i, k, h, temp) ==
  IF i > k THEN [psi EXCEPT ![k] = temp]
  ELSE Shift([psi EXCEPT ![i - 1] = temp], i + 1, k, h, <<h>> \o psi[i - 1])

Attempt ==
  /\ s.pc = "attempt"
  /\ LET same == s.hh = s.hused /\ s.kk = s.kused
         ns == Ns(same, s.ns, s.kused)
     IN s' = [s EXCEPT !.pc = "verdict", !.ns = ns, !.tries = @ + 1,
                       !.saved = [psi |-> s.psi, ns |-> s.ns],
                       !.psi = IF s.kk + 1 >= ns THEN Shift(@, 1, s.kk, s.hh, <<s.hh>>) ELSE @,
                       !.star = ns .. s.kk]

\* a failed attempt: back to the state before it
Restored ==
  [s EXCEPT !.phase = 1, !.clean = FALSE,
     !.star = IF Flaw = "keep star" THEN @ ELSE {},
     !.psi = IF Flaw = "psi by differences"
             THEN [i \in 0..MO |-> IF i < s.kk THEN Tail(s.psi[i + 1]) ELSE s.psi[i]]
             ELSE s.saved.psi,
     !.ns = IF Flaw = "keep ns" THEN @ ELSE s.saved.ns]

Fail(t, out) == [t EXCEPT !.pc = "idle", !.out = out]
\* another attempt, with another size
Again(t, k) ==
  {LET u == [t EXCEPT !.pc = "attempt", !.kk = k, !.hh = h] IN
   IF s.nst = 0 THEN [u EXCEPT !.psi[0] = <<h>>] ELSE u
   : h \in Sizes \ {s.hh}}

ErrFail ==
  /\ s.pc = "verdict"
  /\ \E knew \in Suggestions(s.kk) :
       LET r == [Restored EXCEPT !.nef = @ + 1, !.netf = IF Flaw = "count retries" /\ s.nef + 1 = EF THEN @ ELSE @ + 1, !.errs = @ + 1, !.errsNow = @ + 1, !.knew = knew] IN
       s' \in IF r.nef < EF THEN Again(r, OrderAfterErrFail(r.nef, knew)) ELSE {Fail(r, "ErrFail")}

ConvFail ==
  /\ s.pc = "verdict"
  /\ LET r == [Restored EXCEPT !.ncf = @ + 1, !.ncfn = @ + 1, !.convs = @ + 1, !.convsNow = @ + 1] IN
     s' \in IF r.ncf < CF THEN Again(r, s.kk) ELSE {[Fail(q, "ConvFail") EXCEPT !.kk = s.kk] : q \in Again(r, s.kk)}

Fatal ==
  /\ s.pc = "verdict"
  /\ s' = Fail([Restored EXCEPT !.ncf = @ + 1, !.ncfn = @ + 1, !.convs = @ + 1, !.convsNow = @ + 1], "Fatal")

Accept ==
  /\ s.pc = "verdict" /\ s.nst < MaxNst
  /\ \E knew \in Suggestions(s.kk) :
       LET kdiff == s.kk - s.kused
           ph == PhaseAfterStep(s.phase, s.kk, knew)
           done == [s EXCEPT !.pc = "step", !.nst = @ + 1, !.steps = @ + 1, !.inCall = @ + 1, !.kused = s.kk, !.hused = s.hh,
                             !.phase = ph, !.knew = knew, !.star = {}, !.tries = 0,
                             !.nef = IF Flaw = "keep failures" THEN @ ELSE 0, !.ncf = 0, !.errsNow = 0, !.convsNow = 0,
                             !.hist = Last(<<s.hh>> \o @, MO + 1), !.lastk = s.kk,
                             !.equal = IF s.hist # <<>> /\ s.hist[1] = s.hh /\ s.lastk = s.kk THEN (IF @ < MO + 3 THEN @ + 1 ELSE @) ELSE 1,
                             !.clean = @ /\ knew = s.kk /\ s.kk < MO]
           next == IF ph = 0
                   THEN IF done.nst > 1 THEN {[done EXCEPT !.kk = @ + 1, !.hh = h] : h \in Sizes \ {s.hh}} ELSE {done}
                   ELSE {[done EXCEPT !.kk = k, !.hh = h]
                         : h \in Sizes,
                           k \in IF Flaw = "raise early"
                                 THEN (IF knew = s.kk - 1 THEN {s.kk - 1} ELSE IF s.kk < MO /\ s.kk + 1 <= s.ns THEN {s.kk, s.kk + 1} ELSE {s.kk})
                                 ELSE NextOrders(s.kk, knew, s.ns, kdiff)}
       IN s' \in {[t EXCEPT !.jump = IF t.kk > s.kk THEN (IF ph = 0 THEN "start" ELSE "up") ELSE IF t.kk < s.kk THEN "down" ELSE "none"] : t \in next}

\* after a step: the call goes on or ends; before the next attempt the size may be cut (stop time)
GoOn ==
  /\ s.pc = "step"
  /\ IF s.steps >= MS /\ Flaw # "no limit" THEN s' = Fail(s, "TooManySteps")
     ELSE s' \in {[s EXCEPT !.pc = "attempt", !.hh = h] : h \in Sizes}
Return == s.pc = "step" /\ s' = [s EXCEPT !.pc = "idle", !.out = "success"]

Next == Call \/ Attempt \/ ErrFail \/ ConvFail \/ Fatal \/ Accept \/ GoOn \/ Return
Spec == Init /\ [][Next]_s
Fair == Spec /\ WF_s(Attempt \/ ErrFail \/ ConvFail \/ Fatal \/ Accept \/ GoOn \/ Return)

\* -------------------------------------------------------------------------- properties --
Upto(psi, first, n) == \A i \in 0..n : psi[i] = first \o SubSeq(s.hist, 1, i + 1 - Len(first))
\* the last step can be interpolated
I03 == s.nst > 0 /\ s.pc # "verdict" =>
       Upto(s.psi, <<>>, (IF s.kused < s.nst THEN s.kused ELSE s.nst) - 1) /\ s.star = {}
\* an attempt of order k uses the k latest steps and itself; only columns whose scale changes are rescaled
I04 == s.pc = "verdict" =>
         /\ s.nst > 0 => Upto(s.psi, <<s.hh>>, IF s.kk < s.nst THEN s.kk ELSE s.nst)
         /\ s.psi[0] = <<s.hh>>
         /\ \A i \in 1..s.kk : i \notin s.star /\ s.nst > 0 =>     \* column i spans i steps: the same as i steps ago
              \A j \in 1..i : j <= s.nst => s.hist[j] = s.hh
I07 == /\ s.pc = "verdict" => s.tries <= EF + CF - 1
       /\ s.netf = s.errs /\ s.ncfn = s.convs
       /\ s.nef = s.errsNow /\ s.ncf = s.convsNow /\ s.nef <= EF /\ s.ncf <= CF
       /\ s.out = "ErrFail" /\ s.pc = "idle" => s.nef = EF
I08 == /\ s.pc # "idle" => s.kk \in 1..MO
       /\ s.nst > 0 => s.kk <= s.kused + 1 /\ s.kused \in 1..MO
       /\ s.pc = "verdict" => s.kk <= (IF s.nst = 0 THEN 1 ELSE s.nst)
       /\ s.pc = "step" /\ s.jump = "up" => s.equal >= s.kused + 2
       /\ s.pc = "step" => (s.clean = (s.phase = 0))
       /\ s.pc = "step" /\ s.clean /\ s.nst > 1 => s.jump = "start" /\ s.kk = s.nst
I14 == s.inCall <= MS
I16 == s.netf = s.errs /\ s.ncfn = s.convs
Holds == /\ ("I03" \in Props => I03) /\ ("I04" \in Props => I04) /\ ("I07" \in Props => I07)
         /\ ("I08" \in Props => I08) /\ ("I14" \in Props => I14) /\ ("I16" \in Props => I16)
\* every call ends
Ends == s.pc # "idle" ~> (s.pc = "idle" \/ s.nst = MaxNst)
=============================================================================
