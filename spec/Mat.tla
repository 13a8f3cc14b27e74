-------------------------------- MODULE Mat --------------------------------
(* Matrices of reals: sequences of rows.  Vectors: sequences.               *)
EXTENDS Integers, Sequences, Num
LOCAL INSTANCE TLC

Vec(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Mtx(n, m, F(_, _)) == TLCEval([i \in 1..n |-> [j \in 1..m |-> F(i, j)]])
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
T(A) == Mtx(Cols(A), Len(A), LAMBDA i, j : A[j][i])
Eye(n) == Mtx(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Zero(n, m) == Mtx(n, m, LAMBDA i, j : 0)
VAdd(x, y) == Vec(Len(x), LAMBDA i : RAdd(x[i], y[i]))
VSub(x, y) == Vec(Len(x), LAMBDA i : RSub(x[i], y[i]))
VScale(a, x) == Vec(Len(x), LAMBDA i : RMul(a, x[i]))
MAdd(A, B) == Mtx(Len(A), Cols(A), LAMBDA i, j : RAdd(A[i][j], B[i][j]))
MSub(A, B) == Mtx(Len(A), Cols(A), LAMBDA i, j : RSub(A[i][j], B[i][j]))
MScale(a, A) == Mtx(Len(A), Cols(A), LAMBDA i, j : RMul(a, A[i][j]))
MMul(A, B) == LET Bt == T(B) IN Mtx(Len(A), Len(Bt), LAMBDA i, j : RDot(A[i], Bt[j]))
MV(A, x) == Vec(Len(A), LAMBDA i : RDot(A[i], x))        \* A x
VM(x, A) == MV(T(A), x)                                  \* x A
Outer(x, y) == Mtx(Len(x), Len(y), LAMBDA i, j : RMul(x[i], y[j]))
DiagM(d) == Mtx(Len(d), Len(d), LAMBDA i, j : IF i = j THEN d[i] ELSE 0)
Trace_(A) == RSum(Vec(Len(A), LAMBDA i : A[i][i]))
(* Largest magnitude of an element *)
RECURSIVE MaxIn(_)
MaxIn(x) == IF x = <<>> THEN 0 ELSE RMax(RAbs(Head(x)), MaxIn(Tail(x)))
VMax(x) == MaxIn(x)
MMax(A) == MaxIn(Vec(Len(A), LAMBDA i : MaxIn(A[i])))
(* Blocks along the diagonal, no cross terms *)
Block2(A, B) == Mtx(Len(A) + Len(B), Cols(A) + Cols(B), LAMBDA i, j :
    IF i <= Len(A) /\ j <= Cols(A) THEN A[i][j] ELSE IF i > Len(A) /\ j > Cols(A) THEN B[i - Len(A)][j - Cols(A)] ELSE 0)
RECURSIVE Blocks(_)
Blocks(As) == IF Len(As) = 1 THEN As[1] ELSE Block2(Head(As), Blocks(Tail(As)))
(* X with A X = B; X with X A = B.  <<>> if A is singular *)
Solvable(A) == RSolve(A, Vec(Len(A), LAMBDA i : 0)) # <<>>
MSolve(A, B) == LET Bt == T(B) IN T(Vec(Len(Bt), LAMBDA j : RSolve(A, Bt[j])))
MInv(A) == MSolve(A, Eye(Len(A)))
(* Pseudo-inverse of a matrix of full rank *)
PInv(M) == LET Mt == T(M) IN
    IF Len(M) = Cols(M) THEN MInv(M)
    ELSE IF Len(M) < Cols(M) THEN MMul(Mt, MInv(MMul(M, Mt))) ELSE MMul(MInv(MMul(Mt, M)), Mt)

(* Cholesky factor: lower triangular L with L L^T = A.  <<>> if A is not positive definite *)
RECURSIVE CholRow(_, _, _)
CholRow(a, L, row) ==      \* entries of one row to the left of the diagonal, from the rows L above it
    IF Len(row) = Len(L) THEN row
    ELSE LET j == Len(row) + 1 IN
         CholRow(a, L, Append(row, RDiv(RSub(a[j], RDot(row, SubSeq(L[j], 1, j - 1))), L[j][j])))
RECURSIVE CholFrom(_, _)
CholFrom(A, L) ==
    IF Len(L) = Len(A) THEN L
    ELSE LET i == Len(L) + 1
             row == CholRow(A[i], L, <<>>)
             d == RSub(A[i][i], RDot(row, row)) IN
         IF ~RLt(0, d) THEN <<>>
         ELSE CholFrom(A, TLCEval(Append(L, row \o <<RSqrt(d)>> \o [k \in 1..(Len(A) - i) |-> 0])))
Chol(A) == TLCEval(CholFrom(A, <<>>))
PosDef(A) == Len(A) = 0 \/ Chol(A) # <<>>
Symmetric(A) == \A i, j \in 1..Len(A) : REq(A[i][j], A[j][i])
Sym(A) == Mtx(Len(A), Len(A), LAMBDA i, j : RDiv(RAdd(A[i][j], A[j][i]), 2))
(* Positive semi-definite, up to eps times the largest magnitude *)
PosSemi(A, eps) == LET m == MMax(A) IN
    REq(m, 0) \/ PosDef(MAdd(Sym(A), MScale(RMul(eps, m), Eye(Len(A)))))
(* P is the positive semi-definite matrix which is nearest to S: the projection on a cone is characterised by       *)
(* P >= 0, P - S >= 0 and <P, P - S> = 0, where only the symmetric part of S matters                                   *)
IsNearestSemi(P, S0, eps) ==
    LET S == Sym(S0)
        m == RMax(MMax(S), "1e-300")
        D == MSub(P, S)
        ok(A) == PosDef(MAdd(Sym(A), MScale(RMul(eps, m), Eye(Len(A))))) IN
    /\ ok(P) /\ ok(D)
    /\ RLe(RAbs(Trace_(MMul(P, D))), RMul(RMul(eps, m), RMul(m, Len(S) * Len(S))))
    /\ \A i, j \in 1..Len(P) : RLe(RAbs(RSub(P[i][j], P[j][i])), RMul(eps, m))
=============================================================================
