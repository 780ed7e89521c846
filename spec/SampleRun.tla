----------------------------- MODULE SampleRun -----------------------------
(* S03, S04: integrating the sample problems gives their solutions.  The     *)
(* references (SampleRef.tla) are themselves checked: each of their points   *)
(* satisfies the equations of Samples.tla, and neighbouring points of the    *)
(* mechanism belong to one motion.                                           *)
EXTENDS Num, SampleRef, FiniteSets, Json, IOUtils

Doubles(ref) == Force([k \in 1..Len(ref) |-> <<FOfStr(ref[k][1]), [i \in 1..Len(ref[k][2]) |-> FOfStr(ref[k][2][i])],
                                               [i \in 1..Len(ref[k][3]) |-> FOfStr(ref[k][3][i])]>>])
Rob == Doubles(RobertsRef)
Crk == Doubles(CrankRef)
EvT == <<FOfStr(RobertsEvents[1]), FOfStr(RobertsEvents[2])>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
\* seen: how many of the two events of the chemistry have been reported
VARIABLES tid, l, seen
vars == <<tid, l, seen>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ seen = 0
Next == /\ l <= Len(T.ev) /\ l' = l + 1 /\ tid' = tid
        /\ seen' = seen + (IF T.ev[l].out = "root" THEN 1 ELSE 0)
Spec == Init /\ [][Next]_vars

E == T.ev[l - 1]
Zero == FOfInt(0)
Atol(i) == IF Len(T.a) = 1 THEN T.a[1] ELSE T.a[i]
\* the chemistry forgets errors; those of the mechanism add up
Times(e) == IF T.prob = "roberts" THEN FOfInt(60) ELSE FOfInt(120 + 3 * e.nst)
Unit(y, i) == FAdd(FMul(T.r, FAbs(y)), Atol(i))
Within(e, v, y, i) == FIsFinite(v) /\ FLe(FAbs(FSub(v, y)), FMul(Times(e), Unit(y, i)))
Near(e, ref, n) == \A k \in 1..Len(ref) : FEq(ref[k][1], e.t) => \A i \in 1..n : Within(e, e.yy[i], ref[k][2][i], i)

\* event number 1: y3 rises to 0.01; number 2: y1 falls to 1e-4
Comp == <<3, 1>>
Level == <<FOfStr("0.01"), FOfStr("1e-4")>>
Info == << <<0, 1>>, <<-1, 0>> >>
\* slopes there, from the equation of y3 and of y1 + y2 + y3 = 1 (y2 is negligible): read off the reference
Slope == <<FOfStr("0.037"), FOfStr("4.5e-12")>>
Slack(e, j) == FDiv(FMul(Times(e), Unit(Level[j], Comp[j])), Slope[j])
EventOK(e) ==
  /\ seen \in {1, 2} /\ e.ir = Info[seen]
  /\ Within(e, e.yy[Comp[seen]], Level[seen], Comp[seen])
  /\ FLe(FAbs(FSub(e.t, EvT[seen])), Slack(e, seen))
\* an event that is due has been reported
DueOK(e) == \A j \in 1..2 : FLt(FAdd(EvT[j], Slack(e, j)), e.t) => seen >= j

LastRet == CHOOSE k \in 1..Len(T.ev) : T.ev[k].e = "ret" /\ \A m \in (k + 1)..Len(T.ev) : T.ev[m].e # "ret"
Prev(k) == IF \E m \in 1..(k - 1) : T.ev[m].e = "ret"
           THEN T.ev[CHOOSE m \in 1..(k - 1) : T.ev[m].e = "ret" /\ \A j \in (m + 1)..(k - 1) : T.ev[j].e # "ret"].nst ELSE 0
\* the limit of 500 steps in a call is the one error that is no failure
LimitHit(e) == e.out = "err:IllegalInput" /\ e.nst = Prev(l - 1) + 500
BadRet ==
  \/ E.out \notin {"success", "root"} /\ ~LimitHit(E)
  \/ E.out = "root" /\ (T.prob # "roberts" \/ ~EventOK(E))
  \/ E.out = "success" /\ T.prob = "roberts" /\ ~DueOK(E)
  \* (steps may have gone past the last output time, which is then not asked for)
  \/ l - 1 = LastRet /\ ((E.out # "success" /\ ~(E.m = "O" /\ E.out = "root")) \/ (E.m = "N" /\ ~FEq(E.t, E.want)))
Bad == l > 1 /\ (\/ E.e = "ret" /\ BadRet
                 \/ E.e = "getsol" /\ E.out # "ok"
                 \/ E.out \in {"success", "ok"} /\ T.prob = "roberts" /\ ~Near(E, Rob, 3)
                 \/ E.out \in {"success", "ok"} /\ T.prob = "crank" /\ ~Near(E, Crk, 6))
Report(p) == Bad => PrintT(<<"BAD", p, T.id, l - 1>>) /\ FALSE
S03 == Report("S03")
S04 == Report("S04")
=============================================================================
