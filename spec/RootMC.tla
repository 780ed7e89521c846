------------------------------- MODULE RootMC -------------------------------
(* The bounds of Root.tla on the exact method itself: all systems of one and *)
(* two unknowns on a grid, fresh and inherited matrices, retry with a fresh  *)
(* one after a failure.                                                      *)
EXTENDS Root, FiniteSets
CONSTANTS Offs, Quads, Diags, MaxIt

R(n, d) == RDiv(RofInt(n), RofInt(d))
Vals(S) == {R(k - 8, 8) : k \in S}      \* configuration files have no negative numbers
Sys1 == {[c |-> <<1>>, r |-> <<RofInt(1)>>, q |-> <<q>>, A |-> <<<<RofInt(d)>>>>] : q \in Vals(Quads), d \in Diags}
Sys2 == {[c |-> <<1, 2>>, r |-> <<RofInt(1), RofInt(-1)>>, q |-> <<q, RNeg(q)>>,
          A |-> <<<<RofInt(d), o>>, <<o, RofInt(d)>>>>] : q \in Vals(Quads), d \in Diags, o \in Vals(Offs)}
        \cup
        {[c |-> <<2, 1>>, r |-> <<RofInt(0), RofInt(2)>>, q |-> <<q, q>>,
          A |-> <<<<o, RofInt(d)>>, <<RofInt(d + 1), o>>>>] : q \in Vals(Quads), d \in Diags, o \in Vals(Offs)}
Starts(s) == {Force([i \in 1..Len(s.r) |-> RAdd(s.r[i], IF i = 1 THEN a ELSE b)]) : a \in Vals(Offs), b \in {R(3, 8), R(-1, 4)}}

VARIABLES s, y0, M, tol, k, y, d, st
vars == <<s, y0, M, tol, k, y, d, st>>

Det(m) == IF Len(m) = 1 THEN m[1][1] ELSE RSub(RMul(m[1][1], m[2][2]), RMul(m[1][2], m[2][1]))
Solve(m, b) ==
  IF Len(m) = 1 THEN <<RDiv(b[1], m[1][1])>>
  ELSE Force(<<RDiv(RSub(RMul(b[1], m[2][2]), RMul(m[1][2], b[2])), Det(m)),
               RDiv(RSub(RMul(m[1][1], b[2]), RMul(b[1], m[2][1])), Det(m))>>)
Ones == [i \in 1..Len(s.r) |-> ROne]
Zeros == [i \in 1..Len(s.r) |-> RZero]
Floor == RZero

Init == /\ s \in Sys1 \cup Sys2
        /\ y0 \in Starts(s)
        \* a matrix of this system at the start or elsewhere, or of another system
        /\ \/ M = Jac(s, y0) /\ st = "fresh"
           \/ st = "stale" /\ \E x \in Starts(s) : M = Jac(s, x)
           \/ st = "stale" /\ \E f \in {R(1, 4), RofInt(3)} : M = Force([i \in 1..Len(s.r) |-> [j \in 1..Len(s.r) |-> RMul(f, s.A[i][j])]])
        /\ tol \in {R(1, 10), R(1, 1000)}
        /\ k = 0 /\ y = y0 /\ d = Zeros
Iterate ==
  /\ st \in {"fresh", "stale"} /\ k < MaxIt /\ Det(M) # RZero
  /\ d' = Solve(M, Force([i \in 1..Len(y) |-> RNeg(Fun(s, y)[i])]))
  /\ y' = VAdd(y, d')
  /\ k' = k + 1
  /\ st' = IF Small(d', Ones, tol) THEN (IF st = "fresh" THEN "ok" ELSE "okstale") ELSE st
  /\ UNCHANGED <<s, y0, M, tol>>
Retry ==
  /\ st = "stale" /\ (k = MaxIt \/ Det(M) = RZero)
  /\ M' = Jac(s, y0) /\ st' = "fresh" /\ k' = 0 /\ y' = y0 /\ d' = Zeros
  /\ UNCHANGED <<s, y0, tol>>
GiveUp == st = "fresh" /\ (k = MaxIt \/ Det(M) = RZero) /\ st' = "fail" /\ UNCHANGED <<s, y0, M, tol, k, y, d>>
Next == Iterate \/ Retry \/ GiveUp
Spec == Init /\ [][Next]_vars

Contracts == [][ /\ k' > k /\ RLt(RZero, Alpha(s.c, M))
                 => RLe(Err(s, y'), RMul(Theta(s, M, Err(s, y)), Err(s, y))) ]_vars
Finds   == st = "fail" => ~Certain(s, M, y0, Ones, tol, MaxIt, Floor, FALSE)
Direct  == st \in {"ok", "okstale"} => Close(s, M, VSub(y, d), d, y, Floor)
=============================================================================
