----------------------------- MODULE IdaCallsMC -----------------------------
(* Model checking of IdaCalls: all functions over a few ticks, all short     *)
(* sequences of requests, all choices of step ends and searches.             *)
EXTENDS IdaCalls, TLC
CONSTANTS NT, NF, MaxCalls, Stops, Flat, Props

Funcs == {f \in [tick : [1..(NT + 1) -> {-1, 0, 1}], open : [1..NT -> IF Flat THEN {-1, 0, 1} ELSE {-1, 1}]] :
            /\ Continuous(f)
            /\ f.tick[1] \in {0, f.open[1]} /\ f.tick[NT + 1] \in {0, f.open[NT]}
            \* flat only at one of the ends
            /\ f.open[1] # 0 \/ f.open[NT] # 0 \/ NT < 3
            /\ \A k \in 2..NT : f.open[k] # 0 \/ \A j \in k..NT : f.open[j] = 0
            \* a mirrored function behaves alike
            /\ f.open[1] \in {0, 1} \/ f.tick[1] = 0}

VARIABLES fs, s, s0, h, n, bad
vars == <<fs, s, s0, h, n, bad>>
Init == /\ fs \in (IF NF = 0 THEN {<<>>} ELSE [1..NF -> Funcs])
        /\ s = Start(fs) /\ s0 = s /\ h = Hist(fs) /\ n = 0 /\ bad = {}

Settle(t) == IF t.pc = "idle" THEN bad' = Contradicted(fs, h, s0', t) /\ h' = Seen(fs, h, t) ELSE UNCHANGED <<bad, h>>

Call == /\ s.pc = "idle" /\ n < MaxCalls
        /\ \E m \in {"N", "O"}, k \in 0..NT :
             /\ m = "O" => k = NT
             /\ \E t \in PreCall(fs, s, m, At(k)) : s' = t /\ s0' = s /\ Settle(t)
        /\ n' = n + 1 /\ UNCHANGED fs
Step == /\ s.pc = "step"
        /\ \E p \in StepEnds(s, {At(k) : k \in 0..NT} \cup (IF s.tstop = None THEN {} ELSE {s.tstop - 1})) :
             \E t \in TakeStep(fs, s, p) : s' = t /\ s0' = s0 /\ Settle(t)
        /\ UNCHANGED <<fs, n>>
Stop == /\ Stops /\ s.pc = "idle" /\ n < MaxCalls - 1 /\ s.tstop = None
        /\ \E k \in 1..NT : s' = SetStop(s, At(k))
        /\ n' = n + 1 /\ UNCHANGED <<fs, s0, h, bad>>
Next == Call \/ Step \/ Stop
Spec == Init /\ [][Next]_vars
Holds == bad \cap Props = {}
=============================================================================
