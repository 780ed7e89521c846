-------------------------------- MODULE Root --------------------------------
(* Newton's method on systems whose root r is known,                         *)
(*     F(x)[i] = sum_j A[i][j] e_j + q[i] e_{c[i]}^2,     e = x - r,          *)
(* c a permutation (the position of the dominant element of every row).  The *)
(* corrections come from a matrix M, the Jacobian taken at some earlier      *)
(* point, perhaps of an earlier system.  Everything is exact arithmetic on   *)
(* rationals; a system is [c, r, q, A].                                      *)
EXTENDS Num

Two == RofInt(2)
Half == RDiv(ROne, Two)
RMx(a, b) == IF RLt(a, b) THEN b ELSE a
RMn(a, b) == IF RLt(a, b) THEN a ELSE b
MaxAbs(v) == LET F[i \in 0..Len(v)] == IF i = 0 THEN RZero ELSE RMx(F[i - 1], RAbs(v[i])) IN F[Len(v)]
MinAbs(v) == LET F[i \in 1..Len(v)] == IF i = 1 THEN RAbs(v[1]) ELSE RMn(F[i - 1], RAbs(v[i])) IN F[Len(v)]
MaxEl(M) == LET F[i \in 0..Len(M)] == IF i = 0 THEN RZero ELSE RMx(F[i - 1], MaxAbs(M[i])) IN F[Len(M)]
SumAbs(v) == LET F[i \in 0..Len(v)] == IF i = 0 THEN RZero ELSE RAdd(F[i - 1], RAbs(v[i])) IN F[Len(v)]
VSub(x, y) == Force([i \in 1..Len(x) |-> RSub(x[i], y[i])])
VAdd(x, y) == Force([i \in 1..Len(x) |-> RAdd(x[i], y[i])])
MatVec(M, x) == Force([i \in 1..Len(M) |-> RDot(M[i], x)])

Fun(s, x) == LET e == VSub(x, s.r)
             IN Force([i \in 1..Len(x) |-> RAdd(RDot(s.A[i], e), RMul(s.q[i], RMul(e[s.c[i]], e[s.c[i]])))])
Jac(s, x) == Force([i \in 1..Len(x) |-> [j \in 1..Len(x) |->
               IF j = s.c[i] THEN RAdd(s.A[i][j], RMul(Two, RMul(s.q[i], RSub(x[j], s.r[j])))) ELSE s.A[i][j]]])
Err(s, x) == MaxAbs(VSub(x, s.r))

(* how much the dominant elements dominate: 1/Alpha bounds the inverse of M *)
Dom(c, M, i) == RSub(RMul(Two, RAbs(M[i][c[i]])), SumAbs(M[i]))
Alpha(c, M) == LET F[i \in 1..Len(M)] == IF i = 1 THEN Dom(c, M, 1) ELSE RMn(F[i - 1], Dom(c, M, i)) IN F[Len(M)]
Dist(M, A) == LET F[i \in 0..Len(M)] == IF i = 0 THEN RZero ELSE RMx(F[i - 1], SumAbs(VSub(M[i], A[i]))) IN F[Len(M)]

(* M e' = (M - A) e - q e^2, so that |e'| <= Theta |e| *)
Theta(s, M, en) == RDiv(RAdd(Dist(M, s.A), RMul(MaxAbs(s.q), en)), Alpha(s.c, M))

(* Starting at y0 with the matrix M, the correction number k (from 0) is at most (1 + t) t^k |e0|, *)
(* floor is what rounding may add.  So one of the first maxit corrections passes the test.         *)
RECURSIVE Passes(_, _, _, _)
Passes(b, t, tol, k) == k > 0 /\ (RLe(b, tol) \/ Passes(RMul(b, t), t, tol, k - 1))
Certain(s, M, y0, w, tol, maxit, floor, diverge) ==
  /\ RLt(RZero, Alpha(s.c, M))
  /\ LET en == Err(s, y0)
         t  == Theta(s, M, en)
         wm == MaxAbs(w)
     IN /\ RLt(t, Half)
        /\ RLe(RMul(RofInt(8), RMul(wm, floor)), tol)
        /\ Passes(RMul(wm, RMul(RAdd(ROne, t), en)), t, RDiv(tol, Two), maxit)
        \* a test that gives up when a correction is twice as large as the one before:
        \* the weights must not be able to hide the contraction
        /\ diverge => RLe(RMul(RMul(wm, RofInt(Len(w))), RMul(RAdd(ROne, t), t)),
                          RMul(MinAbs(w), RSub(ROne, t)))

(* the weighted root mean square of d is at most tol *)
Small(d, w, tol) == LET p == Force([i \in 1..Len(d) |-> RMul(d[i], w[i])])
                    IN RLe(RDot(p, p), RMul(RofInt(Len(d)), RMul(tol, tol)))
(* after a correction d that led to x: |e| <= t / (1 - t) |d| *)
Close(s, M, x0, d, x, floor) ==
  LET t == Theta(s, M, Err(s, x0))
  IN RLt(RZero, Alpha(s.c, M)) /\ RLt(t, Half) =>
       RLe(RMul(RSub(ROne, t), Err(s, x)), RAdd(RMul(t, MaxAbs(d)), floor))
=============================================================================
