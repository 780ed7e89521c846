-------------------------------- MODULE BDF --------------------------------
(* The mathematics of the variable-step, fixed-leading-coefficient BDF        *)
(* method, written from the accepted solution values only: polynomials        *)
(* through past points, coefficients, local error estimates.  The code keeps  *)
(* scaled divided differences instead; nothing of that appears here.          *)
(*                                                                            *)
(* A history is a sequence of points, most recent first; a point is           *)
(*   [h |-> step that led to it, y |-> value, ee |-> correction of that step].*)
(* The last point is the initial value (its h and ee mean nothing).           *)
(* Numbers are doubles (Num); vectors are sequences of them.                  *)
EXTENDS Num

F0 == "0000000000000000"
F1 == FOfInt(1)
F2 == FOfInt(2)
FHalf == FDiv(F1, F2)
FQuarter == FDiv(F1, FOfInt(4))
Eps == FOfStr("2.220446049250313e-16")
FInf == FOfStr("Infinity")
FI(n) == FOfInt(n)

MaxOrd == 5

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* 1 + 1/2 + ... + 1/k
RECURSIVE HarmF(_)
HarmF(k) == IF k = 0 THEN F0 ELSE FAdd(HarmF(k - 1), FDiv(F1, FI(k)))
HarmT == Force([k \in 1..6 |-> HarmF(k)])
Harm(k) == HarmT[k]

\* ------------------------------------------------------------- vectors --
VAbs(v) == Force([i \in 1..Len(v) |-> FAbs(v[i])])
VAddF(u, v) == Force([i \in 1..Len(u) |-> FAdd(u[i], v[i])])
VSubF(u, v) == Force([i \in 1..Len(u) |-> FSub(u[i], v[i])])
VScaleF(c, v) == Force([i \in 1..Len(v) |-> FMul(c, v[i])])
RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN F0 ELSE FAdd(SumTo(v, n - 1), v[n])
RECURSIVE ProdTo(_, _)
ProdTo(v, n) == IF n = 0 THEN F1 ELSE FMul(ProdTo(v, n - 1), v[n])

\* weighted root mean square over the components the mask keeps, mean over all
WNorm(v, w, mask) ==
  LET p == [i \in 1..Len(v) |-> IF mask[i] THEN FMul(v[i], w[i]) ELSE F0]
      q == Force([i \in 1..Len(v) |-> FMul(p[i], p[i])])
  IN FSqrt(FDiv(SumTo(q, Len(v)), FI(Len(v))))
AllTrue(n) == [i \in 1..n |-> TRUE]

\* |a - b| <= tol
Near(a, b, tol) == FLe(FAbs(FSub(a, b)), tol)
\* componentwise |a - b| <= eps * mag
VNear(a, b, mag, eps) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : FIsFinite(a[i]) => Near(a[i], b[i], FAdd(FMul(eps, mag[i]), FOfStr("1e-290")))
  /\ \A i \in 1..Len(a) : FIsFinite(a[i])
RelNear(a, b, eps) == Near(a, b, FMul(eps, FMax(FAbs(a), FAbs(b))))

\* --------------------------------------------- polynomials through points --
\* Position of the points relative to the most recent one.
RECURSIVE Offset(_, _)
Offset(hist, i) == IF i = 1 THEN F0 ELSE FSub(Offset(hist, i - 1), hist[i - 1].h)
Nodes(hist, n) == Force([i \in 1..n |-> Offset(hist, i)])

\* d-th derivative at x of the product over j in J of (x - s[j])/(s[i] - s[j])
RECURSIVE Basis(_, _, _, _, _)
Basis(s, i, J, x, d) ==
  IF J = {} THEN IF d = 0 THEN F1 ELSE F0
  ELSE LET j == CHOOSE j \in J : \A a \in J : a <= j
           den == FSub(s[i], s[j])
           K == J \ {j}
           lead == FMul(FSub(x, s[j]), Basis(s, i, K, x, d))
       IN FDiv(IF d = 0 THEN lead ELSE FAdd(lead, FMul(FI(d), Basis(s, i, K, x, d - 1))), den)
Weights(s, x, d) == Force([i \in 1..Len(s) |-> Basis(s, i, (1..Len(s)) \ {i}, x, d)])

RECURSIVE Largest(_, _, _)
Largest(hist, c, n) == IF n = 0 THEN F0 ELSE FMax(FAbs(hist[n].y[c]), Largest(hist, c, n - 1))

\* d-th derivative, x after the most recent point, of the polynomial of degree k through the k+1
\* most recent points; [v |-> value, m |-> magnitude of the terms summed]
PolyAt(hist, k, x, d) ==
  LET L == Weights(Nodes(hist, k + 1), x, d)
      n == Len(hist[1].y)
      val(c, i) == FMul(L[i], hist[i].y[c])
  IN [v |-> Force([c \in 1..n |-> SumTo([i \in 1..(k + 1) |-> val(c, i)], k + 1)]),
      m |-> Force([c \in 1..n |-> FMax(SumTo([i \in 1..(k + 1) |-> FAbs(val(c, i))], k + 1),
                                      IF d = 0 THEN Largest(hist, c, k + 1) ELSE F0)])]

\* What an attempt of order k and size h predicts: value and derivative.
\* Before the first step there is one point only, and its derivative.
Predicted(hist, yp0, k, h) ==
  IF Len(hist) = 1
  THEN LET a == VScaleF(h, yp0) IN
       [y |-> VAddF(hist[1].y, a), ym |-> VAddF(VAbs(hist[1].y), VAbs(a)),
        yp |-> yp0, ypm |-> VAbs(yp0)]
  ELSE LET a == PolyAt(hist, k, h, 0)
           b == PolyAt(hist, k, h, 1)
       IN [y |-> a.v, ym |-> a.m, yp |-> b.v, ypm |-> b.m]

\* ------------------------------------------------------------ coefficients --
\* sums of recent steps, the attempted one included; before the first step the past is taken to
\* consist of steps of the attempted size
Past(hist, i, h) == IF i < Len(hist) THEN hist[i].h ELSE h
RECURSIVE Psi(_, _, _)
Psi(hist, i, h) == IF i = 1 THEN h ELSE FAdd(Psi(hist, i - 1, h), Past(hist, i - 1, h))
Alpha(hist, i, h) == FDiv(h, Psi(hist, i, h))

\* variable-step error coefficient
Ck(hist, k, h) ==
  LET al == Force([i \in 1..(k + 1) |-> Alpha(hist, i, h)])
      s  == FSub(FAdd(al[k + 1], SumTo(al, k)), Harm(k))
  IN FMax(FAbs(s), al[k + 1])

\* factor of the error estimate at order j
Sigma(hist, j, h) ==
  LET f == Force([i \in 1..j |-> FMul(FI(i), Alpha(hist, i + 1, h))]) IN ProdTo(f, j)

\* Estimates of an attempt of order k and size h with value y = prediction + ee, all with the
\* uncertainty (s) that rounding in the code's own differences can cause.
Est(norm, slack, sig) == [e |-> FMul(sig, norm), s |-> FAdd(FMul(sig, slack), FMul(FOfStr("1e-10"), FMul(sig, norm)))]
ErrAt(hist, k, h, ee, w, mask) ==
  Est(WNorm(ee, w, mask), FMul(FOfStr("1e-12"), WNorm(ee, w, mask)), Sigma(hist, k, h))
\* estimate at a lower order j: distance of the new value from the prediction of order j
ErrLower(hist, j, h, y, w, mask) ==
  LET p == PolyAt(hist, j, h, 0)
      mag == VAddF(p.m, VAbs(y))
  IN Est(WNorm(VSubF(y, p.v), w, mask), FMul(FOfStr("1e-12"), WNorm(mag, w, mask)), Sigma(hist, j, h))
\* estimate at order k+1, from two successive corrections
ErrHigher(k, ee, eeprev, w, mask) ==
  LET mag == VAddF(VAbs(ee), VAbs(eeprev)) IN
  Est(WNorm(VSubF(ee, eeprev), w, mask), FMul(FOfStr("1e-12"), WNorm(mag, w, mask)), FDiv(F1, FI(k + 2)))

\* ---------------------------------------- comparisons with an uncertainty --
Scale(c, E) == [e |-> FMul(c, E.e), s |-> FMul(c, E.s)]
\* the truth values that A <= B may have
LeSet(A, B) ==
  LET s == FAdd(A.s, B.s) IN
  (IF FLe(A.e, FAdd(B.e, s)) THEN {TRUE} ELSE {}) \cup (IF FLt(FSub(B.e, s), A.e) THEN {FALSE} ELSE {})
MaxE(A, B) == [e |-> FMax(A.e, B.e), s |-> FMax(A.s, B.s)]
MinE(A, B) == [e |-> FMin(A.e, B.e), s |-> FMax(A.s, B.s)]

\* (2 E + 1e-4)^(-1/(k+1)), as an interval
Rate(E, k) ==
  LET f(x) == FPow(FAdd(FMul(F2, FMax(x, F0)), FOfStr("1e-4")), FNeg(FDiv(F1, FI(k + 1))))
      u == FOfStr("1e-11")
  IN [lo |-> FMul(FSub(F1, u), f(FAdd(E.e, E.s))), hi |-> FMul(FAdd(F1, u), f(FSub(E.e, E.s)))]
=============================================================================
