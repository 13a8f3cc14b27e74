-------------------------------- MODULE Ukf --------------------------------
(* The unscented Kalman filter.                                              *)
(*   filter: [x, P: estimate; u: controls of the last step; Q, R: noise;     *)
(*            al, be, ka: tuning; m: model]                                  *)
(*   model:  x1 = c + A x + B u0 + C u1 + G (x * x shifted)                  *)
(*           y  = d + D x1 + E u1 + H (x1 * x1 shifted)                      *)
(* where (x * x shifted) has the components x[j] * x[j+1], cyclically; the   *)
(* model is linear if G and H are zero.                                      *)
EXTENDS Mat, Check
LOCAL INSTANCE TLC
VARIABLES fs

Pairs(x) == Vec(Len(x), LAMBDA j : RMul(x[j], x[(j % Len(x)) + 1]))
Evolve(m, x, u0, u1) == Vec(Len(x), LAMBDA i : RSum(<<m.c[i], RDot(m.A[i], x), RDot(m.B[i], u0), RDot(m.C[i], u1), RDot(m.G[i], Pairs(x))>>))
Predict(m, x, u) == Vec(Len(m.d), LAMBDA i : RSum(<<m.d[i], RDot(m.D[i], x), RDot(m.E[i], u), RDot(m.H[i], Pairs(x))>>))

(* The scaled unscented transform: L dimensions, spread g, weights *)
Dim(f) == 2 * Len(f.x) + Len(f.R)
Kappa(f) == IF f.ka = "automatic" THEN 3 - Dim(f) ELSE f.ka
Spread2(f) == RMul(RMul(f.al, f.al), RAdd(Dim(f), Kappa(f)))     \* alpha^2 (L + kappa) = gamma^2
WRest(f) == RDiv("0.5", Spread2(f))
WMean0(f) == RDiv(RSub(Spread2(f), Dim(f)), Spread2(f))
WCov0(f) == RAdd(WMean0(f), RAdd(RSub(1, RMul(f.al, f.al)), f.be))
Weighted(w0, w, s) == RAdd(RMul(w0, s[1]), RMul(w, RSum(Tail(s))))
(* Sigma points: [x, w, v]: hidden state, process noise, sensor noise; the columns of the Cholesky factor of each block *)
Points(f) ==
    LET n == Len(f.x)
        m == Len(f.R)
        g == RSqrt(Spread2(f))
        Lp == T(Chol(f.P))
        Lq == T(Chol(f.Q))
        Lr == T(Chol(f.R))
        zn == [i \in 1..n |-> 0]
        zm == [i \in 1..m |-> 0]
        block(s) == [i \in 1..n |-> [x |-> VAdd(f.x, VScale(RMul(s, g), Lp[i])), w |-> zn, v |-> zm]]
                 \o [i \in 1..n |-> [x |-> f.x, w |-> VScale(RMul(s, g), Lq[i]), v |-> zm]]
                 \o [i \in 1..m |-> [x |-> f.x, w |-> zn, v |-> VScale(RMul(s, g), Lr[i])]] IN
    TLCEval(<<[x |-> f.x, w |-> zn, v |-> zm]>> \o block(1) \o block(-1))
MeanOf(f, s) == Vec(Len(s[1]), LAMBDA j : Weighted(WMean0(f), WRest(f), [k \in 1..Len(s) |-> s[k][j]]))
CrossOf(f, s, ms, r, mr) ==
    LET w0 == WCov0(f)
        w == WRest(f)
        a == Mtx(Len(ms), Len(s), LAMBDA i, k : RSub(s[k][i], ms[i]))
        b == Mtx(Len(mr), Len(r), LAMBDA i, k : RMul(IF k = 1 THEN w0 ELSE w, RSub(r[k][i], mr[i]))) IN
    Mtx(Len(ms), Len(mr), LAMBDA i, j : RDot(a[i], b[j]))
(* One step: the estimate before the measurement, the predicted output, and the estimate after *)
UpdateWith(f, pts, Ev(_), Pr(_), y) ==
    LET xs == TLCEval([k \in 1..Len(pts) |-> VAdd(Ev(pts[k].x), pts[k].w)])
        xm == MeanOf(f, xs)
        Pm == CrossOf(f, xs, xm, xs, xm)
        ys == TLCEval([k \in 1..Len(pts) |-> VAdd(Pr(xs[k]), pts[k].v)])
        ym == MeanOf(f, ys)
        Py == CrossOf(f, ys, ym, ys, ym)
        Pxy == CrossOf(f, xs, xm, ys, ym)
        Kt == MSolve(T(Py), T(Pxy)) IN       \* K Py = Pxy
    TLCEval([x |-> VAdd(xm, VM(VSub(y, ym), Kt)), P |-> MSub(Pm, MMul(T(Kt), MMul(Py, Kt))), y |-> ym, Py |-> Py, Pm |-> Pm, xm |-> xm])
UpdateFrom(f, pts, u1, y) == UpdateWith(f, pts, LAMBDA x : Evolve(f.m, x, f.u, u1), LAMBDA x : Predict(f.m, x, u1), y)
Update(f, u1, y) == UpdateFrom(f, Points(f), u1, y)
(* Without unique factors (singular covariances), any points with the moments of the estimate and its noise will do *)
Clearly(A) == PosDef(MSub(A, MScale(RMul("1e-7", MMax(A)), Eye(Len(A)))))
Regular(f) == Clearly(f.P) /\ Clearly(f.Q) /\ Clearly(f.R)
Split(f, row) == LET n == Len(f.x) IN [x |-> SubSeq(row, 1, n), w |-> SubSeq(row, n + 1, 2 * n), v |-> SubSeq(row, 2 * n + 1, Len(row))]
(* The Kalman filter of a linear model *)
Kalman(f, u1, y) ==
    LET m == f.m
        xm == Evolve(m, f.x, f.u, u1)
        Pm == MAdd(MMul(MMul(m.A, f.P), T(m.A)), f.Q)
        ym == Predict(m, xm, u1)
        Py == MAdd(MMul(MMul(m.D, Pm), T(m.D)), f.R)
        Kt == MSolve(T(Py), T(MMul(Pm, T(m.D)))) IN
    TLCEval([x |-> VAdd(xm, VM(VSub(y, ym), Kt)), P |-> MSub(Pm, MMul(T(Kt), MMul(Py, Kt))), y |-> ym, Py |-> Py])

(* Points which may be used: their centre is the estimate, their spread that of the estimate and its noise, compared in units of each *)
CheckPoints(f, s, tol, unit) ==
    LET L == Dim(f) IN
    IF Len(s) # 2 * L + 1 \/ \E k \in 1..Len(s) : Len(s[k]) # L THEN Mis("shape of the sigma points", <<2 * L + 1, L>>, Len(s))
    ELSE LET xa == f.x \o Vec(L - Len(f.x), LAMBDA i : 0)
             w == WRest(f)
             mu == Vec(L, LAMBDA j : RDiv(RSum([k \in 1..Len(s) |-> s[k][j]]), Len(s)))
             cov == Mtx(L, L, LAMBDA i, j : RMul(w, RDot([k \in 1..Len(s) |-> RSub(s[k][i], xa[i])], [k \in 1..Len(s) |-> RSub(s[k][j], xa[j])])))
             want == Blocks(<<f.P, f.Q, f.R>>)
             top == RMax(MMax(want), "1e-40")
             \* what is left of the covariance of the estimate is a difference of larger numbers
             floor(i) == IF i <= Len(f.x) THEN RMul(IF RLt("1e-5", tol) THEN "1e-2" ELSE "1e-4", top) ELSE RMul("1e-8", top)
             du == Vec(L, LAMBDA i : RSqrt(RMax(want[i][i], floor(i))))
             in(A) == Mtx(L, L, LAMBDA i, j : RDiv(A[i][j], RMul(du[i], du[j]))) IN
         CNest("centre of the sigma points", xa, mu, tol, RMax(VMax(xa), unit)) \o CNest("spread of the sigma points", in(want), in(cov), tol, 1)

(* What a filter can be made from *)
Square(A, n) == Len(A) = n /\ \A i \in 1..n : IsSeq(A[i]) /\ Len(A[i]) = n
Sound(f, nh, no) ==
    /\ Len(f.x) = nh /\ Square(f.Q, nh) /\ Square(f.R, no)
    /\ RLe("0.001", f.al) /\ RLe(f.al, 1) /\ RLe(0, f.be)
    /\ (f.ka = "automatic" \/ RLt(0, RAdd(2 * nh + no, f.ka)))
---------------------------------------------------------------------------
Init == fs = <<>>
New(f) == fs' = Append(fs, f)
(* The filter holds the estimate it computed (exactly, or as rounded by an implementation) and the new controls *)
Step(i, u1, x, P) == fs' = [fs EXCEPT ![i] = [@ EXCEPT !.x = x, !.P = P, !.u = u1]]
CallerWrites == UNCHANGED fs
=============================================================================
