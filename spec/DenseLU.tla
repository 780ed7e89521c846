------------------------------ MODULE DenseLU ------------------------------
(* Design of the dense direct solver of crates/linear: elimination with      *)
(* partial pivoting (setup), permutation plus two triangular solves (solve), *)
(* one action per elimination or substitution step, in exact arithmetic.     *)
EXTENDS DenseProps

CONSTANTS N, Neg, Pos, MaxSetups     \* entries are the integers -Neg..Pos

Entries == (0 - Neg)..Pos
Rhs == [i \in 1..N |-> i * i + 2]

VARIABLES pc, A0, M, piv, k, b, x, out, col, setups
vars == <<pc, A0, M, piv, k, b, x, out, col, setups>>

Matrices == [1..N -> [1..N -> {RofInt(e) : e \in Entries}]]
RhsV == [i \in 1..N |-> RofInt(Rhs[i])]

Init ==
  /\ A0 \in Matrices /\ M = A0
  /\ pc = "elim" /\ piv = [i \in 1..N |-> 1] /\ k = 1
  /\ b = RhsV /\ x = VZero(N) /\ out = "" /\ col = 0 /\ setups = 1

\* row of the largest entry on or below the diagonal, the first of equals
PivotRow(mat, c) ==
  CHOOSE r \in c..N :
     /\ \A s \in c..N : RLe(RAbs(mat[s][c]), RAbs(mat[r][c]))
     /\ \A s \in c..(r - 1) : RLt(RAbs(mat[s][c]), RAbs(mat[r][c]))

Elim ==
  /\ pc = "elim" /\ k <= N
  /\ LET r == PivotRow(M, k) IN
     IF M[r][k] = RZero
       THEN /\ out' = "fail" /\ col' = k /\ pc' = "failed"
            /\ piv' = [piv EXCEPT ![k] = r] /\ UNCHANGED <<M, k>>
       ELSE LET S == [M EXCEPT ![k] = M[r], ![r] = M[k]]
                mult == RDiv(ROne, S[k][k])
                f(i) == RMul(S[i][k], mult)
            IN /\ M' = Force([i \in 1..N |-> [j \in 1..N |->
                         IF i <= k \/ j < k THEN S[i][j]
                         ELSE IF j = k THEN f(i)
                         ELSE RSub(S[i][j], RMul(S[k][j], f(i)))]])
               /\ piv' = [piv EXCEPT ![k] = r]
               /\ k' = k + 1
               /\ IF k = N THEN pc' = "ready" /\ out' = "ok" ELSE UNCHANGED <<pc, out>>
               /\ UNCHANGED col
  /\ UNCHANGED <<A0, b, x, setups>>

\* permute the right-hand side
Permute ==
  /\ pc = "ready"
  /\ LET RECURSIVE Swap(_, _)
         Swap(v, i) == IF i > N THEN v
                       ELSE Swap([v EXCEPT ![i] = v[piv[i]], ![piv[i]] = v[i]], i + 1)
     IN x' = Force(Swap(b, 1))
  /\ pc' = "fwd" /\ k' = 1
  /\ UNCHANGED <<A0, M, piv, b, out, col, setups>>

Forward ==
  /\ pc = "fwd"
  /\ IF k >= N THEN pc' = "bwd" /\ k' = N /\ UNCHANGED x
     ELSE /\ x' = Force([i \in 1..N |-> IF i > k THEN RSub(x[i], RMul(M[i][k], x[k])) ELSE x[i]])
          /\ k' = k + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<A0, M, piv, b, out, col, setups>>

Backward ==
  /\ pc = "bwd"
  /\ LET xk == RDiv(x[k], M[k][k]) IN
     x' = Force([i \in 1..N |-> IF i = k THEN xk ELSE IF i < k THEN RSub(x[i], RMul(M[i][k], xk)) ELSE x[i]])
  /\ IF k = 1 THEN pc' = "solved" /\ k' = k ELSE k' = k - 1 /\ UNCHANGED pc
  /\ UNCHANGED <<A0, M, piv, b, out, col, setups>>

\* the same solver is set up again, with whatever pivots the last setup left behind
Again ==
  /\ pc \in {"solved", "failed"} /\ setups < MaxSetups
  /\ A0' \in Matrices /\ M' = A0'
  /\ pc' = "elim" /\ k' = 1 /\ out' = "" /\ col' = 0 /\ setups' = setups + 1
  /\ UNCHANGED <<piv, b, x>>

Next == Elim \/ Permute \/ Forward \/ Backward \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Elim \/ Permute \/ Forward \/ Backward)

L01 == pc = "solved" => Solves(A0, M, x, b, RZero)
L02 == pc = "ready" => IsFactorization(A0, M, RZero)
L03 == pc \in {"ready", "failed"} => SetupAnswerOK(A0, out, col)
\* stale pivots of an earlier setup are never used: the outcome is a function of A0 and b
L04 == pc = "solved" => b = RhsV
L05 == pc = "solved" => Solves(A0, M, x, b, RZero)
DefinitionsAgree == setups = 1 /\ pc = "elim" /\ k = 1 => FirstDep(A0) = FirstDepByGram(A0)
Answers == (pc = "elim") ~> (pc \in {"solved", "failed"})
=============================================================================
