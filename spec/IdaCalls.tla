------------------------------ MODULE IdaCalls ------------------------------
(* The integration call at the level of times: output times, stop time, step *)
(* ends and the search for events, for event functions that depend on time   *)
(* only and are given by their signs.                                        *)
(*                                                                           *)
(* Time is a grid with four positions per tick k:                            *)
(*   4k      the tick itself, where functions may vanish                     *)
(*   4k + 1  just after it, indistinguishable from it by a time comparison   *)
(*           up to rounding, but with the sign of the interval behind        *)
(*   4k + 2  the inside of the interval from tick k to tick k + 1            *)
(*   4k + 3  just before tick k + 1                                          *)
(* Integration is forwards (IdaPair relates it to backwards).                *)
(*                                                                           *)
(* The state of the integrator is a record s; PreCall, TakeStep and SetStop  *)
(* give the sets of states that an implementation may be in next.  What is   *)
(* left open is the choice of step ends and the course of the bracketing     *)
(* search.  The design is checked below (Spec); IdaCallsObs checks that      *)
(* recorded runs of the implementation are runs of this design.              *)
EXTENDS Integers, Sequences, FiniteSets

\* ------------------------------------------------------------------------ functions --
\* A function is [tick, open]: its signs at the ticks 0..n and on the intervals between them.
\* After the last tick it keeps the sign of the last interval.
Continuous(f) ==
  \A k \in 2..Len(f.open) :
     LET a == f.open[k - 1]  b == f.open[k]  t == f.tick[k] IN
     IF a = b THEN t \in {0, a} ELSE t = 0
Sign(f, p) ==
  LET k == p \div 4  n == Len(f.open) IN
  IF k >= n THEN IF p % 4 = 0 /\ k = n THEN f.tick[k + 1] ELSE f.open[n]
  ELSE IF p % 4 = 0 THEN f.tick[k + 1] ELSE f.open[k + 1]

\* --------------------------------------------------------------------------- positions --
At(k) == 4 * k
NearTick(p) == p % 4 # 2
Close(p, q) == p = q \/ (NearTick(p) /\ NearTick(q) /\ (p + 1) \div 4 = (q + 1) \div 4)
\* where a look slightly beyond p may end
JustBeyond(p) == CASE p % 4 = 0 -> {p + 1}
                   [] p % 4 = 3 -> {p, p + 1, p + 2}
                   [] OTHER -> {p}
None == -1

\* --------------------------------------------------------------------------------- state --
Result(k, t, tn, ir) == [k |-> k, t |-> t, tn |-> tn, ir |-> ir]
NoIr(fs) == [i \in 1..Len(fs) |-> 0]
Start(fs) ==
  [pc |-> "idle", started |-> FALSE, tn |-> 0, prev |-> 0, last |-> 0,
   tlo |-> 0, glo |-> NoIr(fs), act |-> [i \in 1..Len(fs) |-> TRUE], rf |-> FALSE,
   tstop |-> None, m |-> "N", tout |-> 0, steps |-> 0,
   out |-> Result("none", 0, 0, NoIr(fs))]

Gv(fs, p) == [i \in 1..Len(fs) |-> Sign(fs[i], p)]
Crosses(act, a, b) == \E i \in DOMAIN act : act[i] /\ a[i] * b[i] < 0
Vanishes(act, b) == \E i \in DOMAIN act : act[i] /\ b[i] = 0
Report(act, a, b) == [i \in DOMAIN act |-> IF act[i] /\ (b[i] = 0 \/ a[i] * b[i] < 0) THEN (IF a[i] < 0 THEN 1 ELSE -1) ELSE 0]

Ret(s, k, t, ir) == [s EXCEPT !.pc = "idle", !.out = Result(k, t, s.tn, ir)]
Good(s, k, t, ir) == [Ret(s, k, t, ir) EXCEPT !.last = t]
Err(s, k) == Ret(s, k, s.last, NoIr(<<>>))

\* ------------------------------------------------------------------- the search for events --
\* Results of a search in (tlo, thi]: the position, whether it is an event, and the report.
Search(fs, s, thi) ==
  LET gh == Gv(fs, thi) IN
  IF ~Crosses(s.act, s.glo, gh)
  THEN {[t |-> thi, ev |-> Vanishes(s.act, gh), ir |-> Report(s.act, s.glo, gh)]}
  ELSE LET between == {p \in (s.tlo + 1)..thi : ~Crosses(s.act, s.glo, Gv(fs, p))}
           \* an exact zero with no crossing before it
           exact == {p \in between : Vanishes(s.act, Gv(fs, p))}
           \* the left end of the final bracket, with no crossing before it
           lows == {s.tlo} \cup (between \ exact)
           gl(p) == IF p = s.tlo THEN s.glo ELSE Gv(fs, p)
           brackets == {b \in lows \X ((s.tlo + 1)..thi) :
                          b[1] < b[2] /\ Close(b[1], b[2]) /\ Crosses(s.act, gl(b[1]), Gv(fs, b[2]))}
       IN {[t |-> p, ev |-> TRUE, ir |-> Report(s.act, s.glo, Gv(fs, p))] : p \in exact}
          \cup {[t |-> b[2], ev |-> TRUE, ir |-> Report(s.act, gl(b[1]), Gv(fs, b[2]))] : b \in brackets}

\* Search the part of the last step not yet searched: states with the result in .out
SearchStep(fs, s) ==
  LET thi == IF s.m = "O" \/ s.tn <= s.tout THEN s.tn ELSE s.tout IN
  IF Len(fs) = 0 \/ thi <= s.tlo THEN {[s |-> s, ev |-> FALSE, ir |-> NoIr(fs)]}
  ELSE {[s |-> [s EXCEPT !.tlo = r.t, !.glo = Gv(fs, r.t),
                         !.act = [i \in DOMAIN fs |-> s.act[i] \/ Sign(fs[i], r.t) # 0]],
         ev |-> r.ev, ir |-> r.ir] : r \in Search(fs, s, thi)}

\* The functions at the start: those that vanish there and just beyond are not watched yet.
FirstLook(fs, s) ==
  {[s EXCEPT !.tlo = 0,
             !.act = [i \in DOMAIN fs |-> Sign(fs[i], 0) # 0 \/ Sign(fs[i], p) # 0],
             !.glo = [i \in DOMAIN fs |-> IF Sign(fs[i], 0) # 0 THEN Sign(fs[i], 0) ELSE Sign(fs[i], p)]] : p \in {2}}

\* After an event: functions that vanish at it get the sign they have beyond it.
Again(fs, s) ==
  IF ~s.rf THEN {[s |-> s, k |-> "go"]}
  ELSE LET g == Gv(fs, s.tlo)
           zero == {i \in DOMAIN fs : s.act[i] /\ g[i] = 0}
       IN IF zero = {} THEN {[s |-> [s EXCEPT !.glo = g], k |-> "go"]}
          ELSE {LET h == Gv(fs, p)
                    still == {i \in DOMAIN fs : s.act[i] /\ h[i] = 0}
                IN IF still \cap zero # {} THEN [s |-> s, k |-> "close"]
                   ELSE [s |-> [s EXCEPT !.glo = [i \in DOMAIN fs |-> IF i \in zero THEN h[i] ELSE g[i]]],
                         k |-> IF still = {} THEN "go" ELSE "new"]
                : p \in JustBeyond(s.tlo)}

\* ------------------------------------------------------------------------------- the call --
\* Goals that the state already fulfils before a step; {} if a step is needed.
Before(s) ==
  IF s.tstop # None /\ s.tn > s.tstop THEN {Err(s, "err")}
  ELSE IF s.m = "N" /\ s.tout = s.last THEN {Good(s, "success", s.tout, <<>>)}
  ELSE IF s.m = "N" /\ s.tn >= s.tout
       THEN {IF s.tout < s.prev /\ ~Close(s.tout, s.prev) THEN Err(s, "err") ELSE Good(s, "success", s.tout, <<>>)}
  ELSE IF s.m = "O" /\ s.tn > s.last THEN {Good(s, "success", s.tn, <<>>)}
  ELSE IF s.tstop # None /\ Close(s.tn, s.tstop) THEN {[Good(s, "tstop", s.tstop, <<>>) EXCEPT !.tstop = None]}
  ELSE {}
\* the same after a step
After(s) ==
  IF s.m = "N" /\ s.tn >= s.tout THEN {Good(s, "success", s.tout, <<>>)}
  ELSE IF s.tstop # None /\ Close(s.tn, s.tstop) THEN {[Good(s, "tstop", s.tstop, <<>>) EXCEPT !.tstop = None]}
  ELSE IF s.m = "O" THEN {Good(s, "success", s.tn, <<>>)}
  ELSE {}

Stepping(s) == [s EXCEPT !.pc = "step"]
OrStep(S, s) == IF S = {} THEN {Stepping(s)} ELSE S

PreCall(fs, s0, m, tout) ==
  LET s == [s0 EXCEPT !.m = m, !.tout = tout, !.steps = 0] IN
  IF ~s.started
  THEN IF tout = 0 THEN {Err(s, "err")}
       ELSE IF s.tstop # None /\ s.tstop <= 0 THEN {Err(s, "err")}
       ELSE {Stepping(x) : x \in FirstLook(fs, s)}
  ELSE UNION {
    IF a.k = "close" THEN {Err(a.s, "close")}
    ELSE IF a.k = "new" THEN {Good(a.s, "root", a.s.tlo, <<>>)}
    ELSE LET u == a.s IN
      IF Len(fs) = 0 \/ Close(u.tn, u.last) THEN OrStep(Before(u), u)
      ELSE UNION {
        IF r.ev THEN {[Good(r.s, "root", r.s.tlo, r.ir) EXCEPT !.rf = TRUE]}
        ELSE LET v == [r.s EXCEPT !.rf = FALSE] IN
             IF m = "O" /\ u.rf THEN {Good(v, "success", v.tn, <<>>)} ELSE OrStep(Before(v), v)
        : r \in SearchStep(fs, u)}
    : a \in Again(fs, s)}

\* Step ends: anywhere ahead, but not beyond the stop time; just before it for a step cut to it.
StepEnds(s, P) == {p \in P : p > s.tn /\ ~Close(p, s.tn) /\ (s.tstop = None \/ p <= s.tstop)}
TakeStep(fs, s0, p) ==
  LET s == [s0 EXCEPT !.tn = p, !.prev = s0.tn, !.started = TRUE, !.steps = @ + 1] IN
  UNION {IF r.ev THEN {[Good(r.s, "root", r.s.tlo, r.ir) EXCEPT !.rf = TRUE]}
         ELSE OrStep(After(r.s), r.s) : r \in SearchStep(fs, s)}

SetStop(s, t) == [s EXCEPT !.tstop = t]

\* ------------------------------------------------------------------------- the properties --
\* h: what the caller has seen: the furthest time returned, the functions there, the last report
Hist(fs) == [t |-> 0, g |-> Gv(fs, 0), ir |-> NoIr(fs), seen |-> {}, begun |-> FALSE, tn |-> 0, last |-> "none"]
IrOf(fs, out) == IF out.ir = <<>> THEN NoIr(fs) ELSE out.ir
\* the sign that counts at the furthest returned time
Counts(fs, h, i) == IF h.g[i] = 0 /\ h.ir[i] # 0 THEN Sign(fs[i], h.t + 1) ELSE h.g[i]

SeenLast(fs, h, i) == IF h.g[i] = 0 THEN Sign(fs[i], h.t + 1) ELSE h.g[i]

\* function i was reported at the furthest returned time, where it vanishes, and vanishes beyond it
Stays(fs, h, i) == h.ir[i] # 0 /\ h.g[i] = 0 /\ Sign(fs[i], h.t + 1) = 0

\* function i is zero at the start and for a while after it
Late(fs, i) == \A p \in 0..2 : Sign(fs[i], p) = 0

\* properties contradicted by the return in state s, given the history h and the state s0 at the call
Contradicted(fs, h, s0, s) ==
  LET o == s.out
      good == o.k \in {"success", "root", "tstop"}
      g == Gv(fs, o.t)
      ir == IrOf(fs, o)
      F == DOMAIN fs
      ahead == o.t > h.t
      opposite(i) == Counts(fs, h, i) * g[i] < 0
      \* functions that vanish, or have crossed within the tolerance, at the returned time
      justBefore(i) == Sign(fs[i], 4 * ((o.t + 1) \div 4) - 1)
      here == {i \in F : \/ g[i] = 0 /\ (SeenLast(fs, h, i) # 0 \/ Sign(fs[i], s0.tn) # 0 \/ (NearTick(o.t) /\ justBefore(i) # 0))
                         \/ o.t % 4 = 1 /\ Sign(fs[i], o.t - 2) * g[i] < 0 /\ Sign(fs[i], o.t - 2) # 0}
      If(b, x) == IF b THEN {x} ELSE {}
  IN If(good /\ o.k # "root" /\ ahead /\ \E i \in F : opposite(i), "I09")
     \cup If(o.k = "success" /\ ahead /\ \E i \in F : g[i] = 0 /\ Counts(fs, h, i) # 0, "I09")
     \cup If(o.k = "root" /\ \E i \in F : ir[i] = 0 /\ opposite(i), "I09")
     \cup If(o.k = "root" /\ \A i \in F : ir[i] = 0, "I10")
     \cup If(o.k = "root" /\ \E i \in F : ir[i] # 0 /\ ~(i \in here), "I10")
     \cup If(o.k = "root" /\ \E i \in here : ir[i] = 0 /\ (Counts(fs, h, i) # 0 \/ (h.t = 0 /\ SeenLast(fs, h, i) # 0)), "I10")
     \* the direction is that of the change from the sign just before, or from the one seen last
     \cup If(o.k = "root" /\ \E i \in here : ir[i] # 0 /\ NearTick(o.t)
             /\ justBefore(i) # 0 /\ ir[i] # -justBefore(i) /\ ir[i] # -SeenLast(fs, h, i) /\ ir[i] # -Sign(fs[i], s0.tn)
             \* a function that is not watched from the start on counts from where it is first seen to leave zero
             /\ (Sign(fs[i], 2) # 0 \/ \A q \in h.t..o.t : ir[i] # -Sign(fs[i], q)), "I10")
     \cup If(o.k = "root" /\ \E i \in F : ir[i] # 0 /\ <<(o.t + 1) \div 4, i>> \in h.seen, "I10")
     \cup If(o.k = "root" /\ s.m = "N" /\ o.t > s.tout, "I10")
     \cup If(o.k = "root" /\ o.t < h.t /\ ~Close(o.t, h.t), "I10")
     \cup If(o.k = "success" /\ s.m = "N" /\ (o.t # s.tout \/ (o.tn < o.t /\ ~Close(o.tn, o.t))), "I01")
     \cup If(o.tn < h.tn, "I01")
     \cup If(good /\ o.t > o.tn /\ ~Close(o.t, o.tn), "I01")
     \cup If(o.k = "success" /\ s.m = "O" /\ o.t # o.tn, "I02")
     \* a step is taken unless the caller has not seen the end of the last one
     \cup If(o.k = "success" /\ s.m = "O" /\ s.steps # (IF s0.tn > s0.last THEN 0 ELSE 1), "I02")
     \cup If(s0.tstop # None /\ s0.tn <= s0.tstop /\ good /\ o.t > s0.tstop, "I18")
     \cup If(s0.tstop # None /\ s.steps > 0 /\ o.tn > s0.tstop, "I18")
     \cup If(o.k = "tstop" /\ o.t # s0.tstop, "I18")
     \cup If(s0.tstop # None /\ o.k = "success" /\ s.steps > 0 /\ Close(o.tn, s0.tstop)
             /\ ~(s.m = "N" /\ s.tout <= o.tn), "I18")
     \cup If(s0.tstop # None /\ s0.tn > s0.tstop /\ s0.started /\ o.k \notin {"err", "close"}
             /\ o.k # "root" /\ ~(s.m = "O" /\ s0.tn > s0.last), "I18")
     \cup If(o.k \in {"err", "close"} /\ (s.tn # s0.tn \/ s.last # s0.last \/ s.tstop # s0.tstop), "I15")
     \* functions that vanish over an interval
     \cup If(good /\ o.k # "root" /\ ahead /\ \E i \in F : opposite(i) /\ Late(fs, i), "I22")
     \cup If((o.k = "close") # (h.last \in {"root", "close"} /\ \E i \in F : Stays(fs, h, i)), "I22")
     \cup If(o.k = "root" /\ \E i \in F : ir[i] # 0 /\ \A p \in 0..(o.t - 1) : Sign(fs[i], p) = 0, "I22")

Seen(fs, h, s) ==
  LET o == s.out  ir == IrOf(fs, o)  good == o.k \in {"success", "root", "tstop"}
      on == good /\ (o.t > h.t \/ o.k = "root")
  IN [h EXCEPT !.t = IF on THEN o.t ELSE @,
               !.g = IF on THEN Gv(fs, o.t) ELSE @,
               !.ir = IF on THEN (IF o.k = "root" THEN ir ELSE NoIr(fs)) ELSE @,
               !.seen = IF o.k = "root" THEN @ \cup {<<(o.t + 1) \div 4, i>> : i \in {j \in DOMAIN fs : ir[j] # 0}} ELSE @,
               !.tn = s.tn, !.last = o.k]
=============================================================================
