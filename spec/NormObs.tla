------------------------------ MODULE NormObs ------------------------------
(* W01: the weighted RMS norm computed by the nonlinear crate is the square  *)
(* root of the mean of the squared products, to rounding.  Judged exactly:   *)
(* v^2 * n is compared with the rational sum of squares.                     *)
(* W02: the same for the integrator's norms; components that the mask leaves *)
(* out contribute nothing, n stays the full length.                          *)
EXTENDS Num, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == l = 1 /\ l' = 2 /\ tid' = tid
Spec == Init /\ [][Next]_vars

Sum(x, w) == LET p == Force([i \in 1..Len(x) |-> RMul(RofF(x[i]), RofF(w[i]))]) IN RDot(p, p)
U == RPow2(-53)

\* |v^2 n - S| <= (4 n + 16) u S, v >= 0: products, squares, n-1 additions, one division and
\* one square root, each rounded once, doubled by squaring v
NormOK(x, w, v) ==
  /\ FIsFinite(v) /\ FLe("0000000000000000", v)
  /\ LET n == Len(x)
         S == Sum(x, w)
         r == RofF(v)
     IN RLe(RAbs(RSub(RMul(RofInt(n), RMul(r, r)), S)), RMul(RMul(RofInt(4 * n + 16), U), S))

Bad == \/ T.out # "ok"
       \/ T.x2 # T.x \/ T.w2 # T.w
       \/ ~NormOK(T.x, T.w, T.v)
Kept(x, mask) == Force([i \in 1..Len(x) |-> IF mask[i] THEN x[i] ELSE "0000000000000000"])
BadI == \/ T.out # "ok"
        \/ T.x2 # T.x \/ T.w2 # T.w
        \/ ~NormOK(Kept(T.x, T.mask), T.w, T.v)
W02 == BadI => PrintT(<<"BAD", "W02", T.id, 1>>) /\ FALSE

W01 == Bad => PrintT(<<"BAD", "W01", T.id, 1>>) /\ FALSE
=============================================================================
