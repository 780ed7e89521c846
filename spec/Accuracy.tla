------------------------------ MODULE Accuracy ------------------------------
(* I23: on problems whose solution is known, what the integrator returns     *)
(* stays within a modest multiple of the tolerances.  Component i follows    *)
(*   s(t) = a0 + a1 t + a2 t^2 + b sin(w t) + e exp(-d t)                     *)
(* (the problem pulls it there, leaves it alone, or couples it to another).  *)
EXTENDS Num, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == l <= Len(T.ev) /\ l' = l + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars

E == T.ev[l - 1]
n == Len(T.c)
Zero == FOfInt(0)
M(x, y) == FMul(x, y)
A(x, y) == FAdd(x, y)
\* the course, its slope, and the magnitude of its terms
S(c, t) == A(A(c[1], M(t, A(c[2], M(t, c[3])))), A(M(c[4], FSin(M(c[5], t))), M(c[6], FExp(FNeg(M(c[7], t))))))
DS(c, t) == A(A(c[2], M(FOfInt(2), M(t, c[3]))),
              FSub(M(c[4], M(c[5], FCos(M(c[5], t)))), M(c[6], M(c[7], FExp(FNeg(M(c[7], t)))))))
Mag(c, t) == A(A(FAbs(c[1]), FAbs(M(t, c[2]))), A(A(FAbs(M(t, M(t, c[3]))), FAbs(c[4])), FAbs(c[6])))

RECURSIVE Scale(_, _)
Scale(t, i) == IF i > n THEN Zero ELSE FMax(A(M(T.rtol, Mag(T.c[i], t)), T.atol[i]), Scale(t, i + 1))
\* errors die out where the problem pulls towards the course; elsewhere they add up
Times(e) == FOfInt(40 + (IF T.pull THEN 0 ELSE e.nst))
\* components left out of the error tests are not held to a tolerance
Near(e) ==
  LET t == IF T.mirror THEN FNeg(e.tret) ELSE e.tret
      b == M(Times(e), Scale(t, 1))
      h == FAbs(e.hu)
      \* a derivative is known to the tolerance per step
      bd == M(b, A(FOfInt(1), M(T.stiff, h)))
  IN \A i \in 1..n : T.judged[i] =>
       /\ FIsFinite(e.yy[i]) /\ FLe(FAbs(FSub(e.yy[i], S(T.c[i], t))), b)
       /\ T.diff[i] =>
            /\ FIsFinite(e.yp[i])
            /\ FLe(M(h, FAbs(FSub(IF T.mirror THEN FNeg(e.yp[i]) ELSE e.yp[i], DS(T.c[i], t)))), bd)

Good == {"success", "root", "tstop", "ok"}
\* requests that are refused, and the limit on the number of steps, are no failures of the integration
Refusals == {"err:BadTimeValue", "err:IllegalInput", "err:CloseRoots", "err:TooMuchWork", "err:BadStopTime"}
Bad ==
  /\ l > 1 /\ E.e \in {"ret", "getsol"}
  /\ \/ E.out \notin Good \cup Refusals
     \/ E.out \in Good /\ ~Near(E)
I23 == Bad => PrintT(<<"BAD", "I23", T.id, l - 1>>) /\ FALSE
=============================================================================
