------------------------------ MODULE Samples ------------------------------
(* The sample problems.  Roberts (S01): the three documented equations; its  *)
(* Jacobian dF/dy + cj dF/dy' is obtained from them by central differences,  *)
(* exact in rational arithmetic since the equations are quadratic; the two   *)
(* event functions.  Slider-crank (S02): written from the geometry of the    *)
(* mechanism, with forces and constraint forces as gradients.                *)
EXTENDS Num, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == l = 1 /\ l' = 2 /\ tid' = tid
Spec == Init /\ [][Next]_vars

\* ----------------------------------------------------------------- Roberts --
D(s) == RofF(FOfStr(s))
\* the equations as lists of terms, so that rounding can be related to their magnitudes
Terms(y, p) ==
  << <<RNeg(RMul(D("0.04"), y[1])), RMul(D("1e4"), RMul(y[2], y[3])), RNeg(p[1])>>,
     <<RMul(D("0.04"), y[1]), RNeg(RMul(D("1e4"), RMul(y[2], y[3]))), RNeg(RMul(D("3e7"), RMul(y[2], y[2]))), RNeg(p[2])>>,
     <<y[1], y[2], y[3], RNeg(ROne)>> >>
RECURSIVE SumR(_, _)
SumR(s, i) == IF i > Len(s) THEN RZero ELSE RAdd(s[i], SumR(s, i + 1))
RECURSIVE MagR(_, _)
MagR(s, i) == IF i > Len(s) THEN RZero ELSE RAdd(RAbs(s[i]), MagR(s, i + 1))
Res(y, p) == LET t == Terms(y, p) IN Force([i \in 1..3 |-> SumR(t[i], 1)])
U == RPow2(-53)
NearR(v, x, mag) == FIsFinite(v) /\ RLe(RAbs(RSub(RofF(v), x)), RMul(RMul(RofInt(8), U), mag))
E(j, s) == [i \in 1..3 |-> IF i = j THEN RofInt(s) ELSE RZero]
AddR(u, v) == Force([i \in 1..3 |-> RAdd(u[i], v[i])])
RV(v) == Force([i \in 1..Len(v) |-> RofF(v[i])])
Half(x) == RDiv(x, RofInt(2))
DerY(y, p, j) == LET a == Res(AddR(y, E(j, 1)), p)  b == Res(AddR(y, E(j, -1)), p) IN [i \in 1..3 |-> Half(RSub(a[i], b[i]))]
DerP(y, p, j) == LET a == Res(y, AddR(p, E(j, 1)))  b == Res(y, AddR(p, E(j, -1))) IN [i \in 1..3 |-> Half(RSub(a[i], b[i]))]

Rows(y) == MagR(<<ROne, RMul(D("1e5"), RAdd(RAbs(y[2]), RAbs(y[3]))), RMul(D("6e7"), RAbs(y[2]))>>, 1)
RobertsOK ==
  LET y == RV(T.y)  p == RV(T.p)  cj == RofF(T.cj)
      F == Res(y, p)  t == Terms(y, p)
  IN /\ T.n = 3 /\ T.nroots = 2
     /\ \A i \in 1..3 : NearR(T.r[i], F[i], MagR(t[i], 1))
     /\ \A j \in 1..3 : LET dy == DerY(y, p, j)  dp == DerP(y, p, j) IN
          \A i \in 1..3 : NearR(T.j[i][j], RAdd(dy[i], RMul(cj, dp[i])), RAdd(RAbs(RMul(cj, dp[i])), Rows(y)))
     /\ NearR(T.g[1], RSub(y[1], D("1e-4")), RAdd(RAbs(y[1]), ROne))
     /\ NearR(T.g[2], RSub(y[3], D("0.01")), RAdd(RAbs(y[3]), ROne))

\* ------------------------------------------------------------ slider-crank --
\* unknowns q x p (crank angle, slider place, rod angle), their speeds, two multipliers of the
\* constraints and two of their derivatives; crank half-length a = 1/2, J1 = m2 = k = c = l0 = F = 1, J2 = 2
S(x) == FSin(x)
C(x) == FCos(x)
Half0 == FOfStr("0.5")
\* The two constraints close the loop: crank and rod end at the slider.
Pos(q, x, p) == << FSub(x, FAdd(C(p), FMul(Half0, C(q)))), FNeg(FAdd(S(p), FMul(Half0, S(q)))) >>
\* their gradients
Grad(q, x, p) == << <<FMul(Half0, S(q)), FOfInt(1), S(p)>>, <<FNeg(FMul(Half0, C(q))), FOfInt(0), FNeg(C(p))>> >>
\* spring between the middle of the crank and the middle of the rod
Vec(q, x, p) == << FSub(x, FMul(Half0, FAdd(C(p), FMul(Half0, C(q))))), FNeg(FMul(Half0, FAdd(S(p), FMul(Half0, S(q))))) >>
GradV(q, x, p) == << <<FMul(FOfStr("0.25"), S(q)), FOfInt(1), FMul(Half0, S(p))>>,
                     <<FNeg(FMul(FOfStr("0.25"), C(q))), FOfInt(0), FNeg(FMul(Half0, C(p)))>> >>
Dot2(u, v) == FAdd(FMul(u[1], v[1]), FMul(u[2], v[2]))
Dot3(u, v) == FAdd(FAdd(FMul(u[1], v[1]), FMul(u[2], v[2])), FMul(u[3], v[3]))
Force3(z) ==
  LET q == z[1]  x == z[2]  p == z[3]  s == <<z[4], z[5], z[6]>>
      d == Vec(q, x, p)  G == GradV(q, x, p)
      len == FSqrt(Dot2(d, d))
      rate == FDiv(Dot2(d, <<Dot3(G[1], s), Dot3(G[2], s)>>), len)
      f == FAdd(FSub(len, FOfInt(1)), rate)
      spring(i) == FNeg(FMul(FDiv(f, len), FAdd(FMul(d[1], G[1][i]), FMul(d[2], G[2][i]))))
  IN << spring(1), FAdd(spring(2), FOfInt(1)), FSub(spring(3), S(p)) >>
Close(v, x, mag) == FIsFinite(v) /\ FLe(FAbs(FSub(v, x)), FMul(FOfStr("1e-11"), mag))
RECURSIVE Big(_, _)
Big(v, i) == IF i > Len(v) THEN FOfInt(1) ELSE FAdd(FAbs(v[i]), Big(v, i + 1))
CrankMag(z, zp) ==
  LET d == Vec(z[1], z[2], z[3])
  IN FMul(FMul(Big(z, 1), Big(z, 1)), FAdd(Big(zp, 1), FDiv(FOfInt(1), FSqrt(Dot2(d, d)))))
CrankRes(z, zp) ==
  LET q == z[1]  x == z[2]  p == z[3]  s == <<z[4], z[5], z[6]>>
      lam == <<z[7], z[8]>>  mu == <<z[9], z[10]>>
      G == Grad(q, x, p)  Q == Force3(z)  P == Pos(q, x, p)
      M == <<FOfInt(1), FOfInt(1), FOfInt(2)>>
      pull(i, a) == FAdd(FMul(G[1][i], a[1]), FMul(G[2][i], a[2]))
  IN [i \in 1..10 |->
        IF i <= 3 THEN FAdd(FSub(zp[i], s[i]), pull(i, mu))
        ELSE IF i <= 6 THEN FAdd(FSub(FMul(M[i - 3], zp[i]), Q[i - 3]), pull(i - 3, lam))
        ELSE IF i <= 8 THEN P[i - 6]
        ELSE Dot3(G[i - 8], s)]
CrankOK == LET want == CrankRes(T.y, T.p) IN T.n = 10 /\ \A i \in 1..10 : Close(T.r[i], want[i], CrankMag(T.y, T.p))

Bad(p) == PrintT(<<"BAD", p, T.id, 1>>) /\ FALSE
S01 == (T.e = "roberts" /\ ~(T.out = "ok" /\ RobertsOK)) => Bad("S01")
S02 == (T.e = "crank" /\ ~(T.out = "ok" /\ CrankOK)) => Bad("S02")
=============================================================================
