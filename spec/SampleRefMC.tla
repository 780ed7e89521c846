---------------------------- MODULE SampleRefMC ----------------------------
(* The reference courses (SampleRef) against the equations (Samples): every  *)
(* point satisfies them, and neighbouring points of the mechanism belong to  *)
(* one motion (two-point quadrature of the speed with end correction).       *)
EXTENDS Samples, SampleRef
Doubles(v) == Force([i \in 1..Len(v) |-> FOfStr(v[i])])
NR == Len(RobertsRef)
NC == Len(CrankRef)
RefInit == tid \in 1..(NR + NC) /\ l = 1
RefSpec == RefInit /\ [][Next]_vars
Small(x, mag) == RLe(RAbs(x), RMul(D("1e-10"), mag))
RobPoint ==
  tid <= NR => LET y == RV(Doubles(RobertsRef[tid][2]))  p == RV(Doubles(RobertsRef[tid][3]))
                   f == Res(y, p)  t == Terms(y, p)
               IN \A i \in 1..3 : Small(f[i], MagR(t[i], 1))
Row(k) == CrankRef[k - NR]
CrankPoint ==
  tid > NR => LET z == Doubles(Row(tid)[2])
                  zp == <<z[4], z[5], z[6]>> \o Doubles(Row(tid)[3]) \o [i \in 1..4 |-> FOfInt(0)]
                  f == CrankRes(z, zp)
              IN \A i \in 1..10 : Close(f[i], FOfInt(0), CrankMag(z, zp))
CrankMotion ==
  tid > NR /\ tid < NR + NC =>
    LET a == Doubles(Row(tid)[2])  b == Doubles(Row(tid + 1)[2])
        u == Doubles(Row(tid)[3])  v == Doubles(Row(tid + 1)[3])
        h == FSub(FOfStr(Row(tid + 1)[1]), FOfStr(Row(tid)[1]))
        want(i) == FAdd(FMul(FMul(h, FOfStr("0.5")), FAdd(a[i + 3], b[i + 3])),
                        FMul(FDiv(FMul(h, h), FOfInt(12)), FSub(u[i], v[i])))
    IN \A i \in 1..3 : FLe(FAbs(FSub(FSub(b[i], a[i]), want(i))), FOfStr("2e-6"))
=============================================================================
