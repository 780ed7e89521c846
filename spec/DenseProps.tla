----------------------------- MODULE DenseProps -----------------------------
(* The properties L01..L05 of the dense linear solver as predicates over one *)
(* factorization or one solve, in exact rational arithmetic.  u is the unit   *)
(* roundoff of the arithmetic the solver used: 0 for an exact scalar (the     *)
(* bounds then become equalities), 2^-53 and 2^-24 for the two float types.   *)
(* Matrices are sequences of rows.                                            *)
EXTENDS Num, FiniteSets

Dim(A) == Len(A)

\* ------------------------------------------------------------ definitions --
VZero(n) == [j \in 1..n |-> RZero]
RowAxpy(r, f, q) == Force([j \in 1..Len(r) |-> RSub(r[j], RMul(f, q[j]))])
Del(s, i) == [k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]]

\* The first column that is a linear combination of the columns before it; 0 if there is none.
\* Row operations do not change dependencies between columns.
RECURSIVE FirstDepFrom(_, _, _)
FirstDepFrom(rows, k, n) ==
  IF k > n THEN 0
  ELSE LET P == {i \in 1..Len(rows) : rows[i][k] # RZero} IN
       IF P = {} THEN k
       ELSE LET i  == CHOOSE i \in P : TRUE
                q  == rows[i]
                rs == Del(rows, i)
                nx == Force([a \in 1..Len(rs) |->
                        IF rs[a][k] = RZero THEN rs[a] ELSE RowAxpy(rs[a], RDiv(rs[a][k], q[k]), q)])
            IN FirstDepFrom(nx, k + 1, n)
FirstDep(A) == FirstDepFrom(A, 1, Dim(A))

\* determinant by cofactors: an independent definition, used to validate FirstDep in MC_Dense
RECURSIVE Det(_)
Det(A) ==
  IF Len(A) = 0 THEN ROne
  ELSE LET n == Len(A)
           Minor(j) == Force([a \in 1..(n - 1) |-> Del(A[a + 1], j)])
           Term(j) == RMul(A[1][j], RMul(IF j % 2 = 1 THEN ROne ELSE RNeg(ROne), Det(Minor(j))))
           RECURSIVE Sum(_)
           Sum(j) == IF j > n THEN RZero
                     ELSE RAdd(IF A[1][j] = RZero THEN RZero ELSE Term(j), Sum(j + 1))
       IN Sum(1)
\* column k depends on the columns before it iff the Gram determinant of the first k vanishes
Gram(A, k) == Force([a \in 1..k |-> [b \in 1..k |->
                 RDot([i \in 1..Len(A) |-> A[i][a]], [i \in 1..Len(A) |-> A[i][b]])]])
FirstDepByGram(A) ==
  LET S == {k \in 1..Dim(A) : Det(Gram(A, k)) = RZero} IN
  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j

\* ----------------------------------------------------------- factorization --
LEnt(M, i, k) == IF i = k THEN ROne ELSE IF i > k THEN M[i][k] ELSE RZero
UEnt(M, k, j) == IF k <= j THEN M[k][j] ELSE RZero
LRow(M, p) == [k \in 1..Dim(M) |-> LEnt(M, p, k)]
UCol(M, j) == [k \in 1..Dim(M) |-> UEnt(M, k, j)]
Abs(v) == [k \in 1..Len(v) |-> RAbs(v[k])]

Rows(M, A(_))  == Force([p \in 1..Dim(M) |-> A(LRow(M, p))])
Cols(M, A(_))  == Force([j \in 1..Dim(M) |-> A(UCol(M, j))])
Same(v) == v
Mult(L, U) == Force([p \in 1..Len(L) |-> [j \in 1..Len(U) |-> RDot(L[p], U[j])]])
Product(M)    == Mult(Rows(M, Same), Cols(M, Same))
AbsProduct(M) == Mult(Rows(M, Abs), Cols(M, Abs))

Gamma(c, n, u) == RMul(RofInt(c * n + 10), u)

RowMatches(A, P, Q, i, p, g) ==
  \A j \in 1..Dim(A) : RLe(RAbs(RSub(A[i][j], P[p][j])), RMul(g, Q[p][j]))

\* a bijection from rows of A to rows of L*U, as a sequence; <<>> if there is none
RECURSIVE Match(_, _, _, _, _, _)
Match(A, P, Q, g, i, used) ==
  IF i > Dim(A) THEN used
  ELSE LET S == {p \in 1..Dim(A) : (\A k \in 1..Len(used) : used[k] # p) /\ RowMatches(A, P, Q, i, p, g)} IN
       IF S = {} THEN <<>> ELSE Match(A, P, Q, g, i + 1, Append(used, CHOOSE p \in S : TRUE))
RowPerm(A, M, u) ==
  Match(A, Product(M), AbsProduct(M), Gamma(2, Dim(A), u), 1, <<>>)

\* L02
IsFactorization(A, M, u) ==
  /\ RowPerm(A, M, u) # <<>>
  /\ \A i \in 1..Dim(A) : \A k \in 1..(i - 1) : RLe(RAbs(M[i][k]), ROne)

\* L01: the residual of every equation is at most gamma * (|L||U||x|) in that equation
Solves(A, M, x, b, u) ==
  LET perm == IF u = RZero THEN <<>> ELSE RowPerm(A, M, u)
      Q    == IF u = RZero THEN <<>> ELSE AbsProduct(M)
      g    == Gamma(4, Dim(A), u)
      ax   == Force(Abs(x))
      Bnd(p) == RMul(g, RDot(Q[p], ax))
  IN \A i \in 1..Dim(A) :
       LET r == RAbs(RSub(RDot(A[i], x), b[i])) IN
       IF u = RZero THEN r = RZero
       ELSE IF perm # <<>> THEN RLe(r, Bnd(perm[i]))
       ELSE \E p \in 1..Dim(A) : RLe(r, Bnd(p))

\* L03
SetupAnswerOK(A, out, col) ==
  LET k == FirstDep(A) IN
  IF k = 0 THEN out = "ok" ELSE out = "fail" /\ col = k
=============================================================================
