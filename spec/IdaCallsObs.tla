---------------------------- MODULE IdaCallsObs ----------------------------
(* Recorded runs against the design of IdaCalls.  Times of the recording are *)
(* mapped to the positions of the grid.  S is the set of states the design   *)
(* may be in after the events so far; a run leaves the design when S becomes *)
(* empty.  The same requirements that are checked on the design (Contradicted)*)
(* are evaluated on the results the implementation has returned.             *)
EXTENDS IdaCalls, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Props

VARIABLES tid, l, S, o0, o, h, bad
vars == <<tid, l, S, o0, o, h, bad>>
Tr == Traces[tid]
fs == Tr.fs

Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ S = {Start(fs)}
        /\ o = Start(fs) /\ o0 = o       \* what the recording shows of the state; the same at the call
        /\ h = Hist(fs) /\ bad = {}

Same(u, v, n) == n = 0 \/ IF v = <<>> THEN \A i \in 1..n : u[i] = 0 ELSE u = v
Matches(s, ev) ==
  /\ s.pc = "idle" /\ s.out.k = ev.out /\ s.tn = ev.tn
  /\ ev.out \in {"err", "close"} \/ s.out.t = ev.t
  /\ ev.out # "root" \/ s.out.ir = <<>> \/ s.out.ir = ev.ir

\* what a departure from the design contradicts: a result the design cannot give here
Departure(ev) ==
  LET idle == {x \in S : x.pc = "idle"}
      outs == {s.out.k : s \in idle}
  IN CASE ev.out # "root" /\ outs = {"root"} ->
            {"I09"} \cup IF \A x \in idle : \E i \in DOMAIN fs : IrOf(fs, x.out)[i] # 0 /\ Late(fs, i) THEN {"I22"} ELSE {}
       [] ev.out = "root" /\ "root" \notin outs -> {"I10"}
       [] ev.out = "root" /\ idle # {} -> {"I10"}
       [] ev.out # "tstop" /\ outs = {"tstop"} -> {"I18"}
       [] ev.out = "tstop" /\ "tstop" \notin outs -> {"I18"}
       [] "close" \in {ev.out} \cup outs -> {"I22"}
       [] ev.out = "err" /\ "err" \notin outs -> {"I01"}
       [] ev.out = "success" /\ o.m = "O" -> {"I02"}
       [] OTHER -> {}

Next ==
  /\ l <= Len(Tr.ev)
  /\ LET ev == Tr.ev[l] IN
     CASE ev.e = "stop" -> /\ S' = {SetStop(s, ev.t) : s \in S}
                           /\ o' = SetStop(o, ev.t)
                           /\ UNCHANGED <<o0, h, bad>>
       [] ev.e = "call" -> /\ S' = UNION {PreCall(fs, s, ev.m, ev.tout) : s \in S}
                           /\ o0' = o /\ o' = [o EXCEPT !.m = ev.m, !.tout = ev.tout, !.steps = 0]
                           /\ UNCHANGED <<h, bad>>
       [] ev.e = "step" -> /\ S' = UNION {TakeStep(fs, s, ev.t) : s \in {x \in S : x.pc = "step" /\ ev.t \in StepEnds(x, {ev.t})}}
                           /\ o' = [o EXCEPT !.tn = ev.t, !.steps = @ + 1, !.started = TRUE]
                           /\ UNCHANGED <<o0, h, bad>>
       [] ev.e = "ret" ->
            LET u == [o EXCEPT !.out = [k |-> ev.out, t |-> ev.t, tn |-> ev.tn, ir |-> ev.ir], !.tn = ev.tn,
                               !.rf = ev.out \in {"root", "close"},
                               !.last = IF ev.out \in {"err", "close"} THEN @ ELSE ev.t,
                               !.tstop = IF ev.out = "tstop" THEN None ELSE @]
                T == {s \in S : Matches(s, ev)}
            IN /\ S' = T /\ o' = u
               /\ h' = Seen(fs, h, u)
               /\ bad' = bad \cup Contradicted(fs, h, o0, u)
                             \cup (IF T # {} THEN {} ELSE {"departs"} \cup IF S # {} THEN Departure(ev) ELSE {})
               /\ UNCHANGED o0
  /\ l' = l + 1 /\ tid' = tid

Fresh == (bad' \ bad) \cap Props
Judge == Next /\ \A p \in Fresh : PrintT(<<"BAD", p, Tr.id, l>>)
JudgeSpec == Init /\ [][Judge]_vars
=============================================================================
