------------------------------- MODULE MCUkf -------------------------------
EXTENDS Ukf, TLC
CONSTANTS Depth
VARIABLES n, done      \* steps so far; the last step [f, u, y] or <<>>
Z(a, b) == Zero(a, b)
M1 == [c |-> <<"0.1">>, A |-> <<<<"0.9">>>>, B |-> <<<<"0.5">>>>, C |-> <<<<"-0.25">>>>, G |-> Z(1, 1),
       d |-> <<1>>, D |-> <<<<2>>>>, E |-> <<<<"0.5">>>>, H |-> Z(1, 1)]
M2 == [c |-> <<0, "-0.2">>, A |-> <<<<"0.9", "0.2">>, <<"-0.1", "1.1">>>>, B |-> <<<<"0.5">>, <<"0.1">>>>, C |-> <<<<"-0.25">>, <<1>>>>, G |-> Z(2, 2),
       d |-> <<1, 0, 2>>, D |-> <<<<1, 0>>, <<"0.5", -1>>, <<1, 1>>>>, E |-> <<<<"0.5">>, <<0>>, <<1>>>>, H |-> Z(3, 2)]
M3 == [M1 EXCEPT !.G = <<<<"0.05">>>>, !.H = <<<<"0.1">>>>]
Tunings == {<<"1", "2", "0">>, <<"0.5", "2", "0">>, <<"0.1", "0", "1.5">>, <<"1", "2", "automatic">>}
F1(m, t) == [x |-> <<"1.5">>, P |-> <<<<"0.8">>>>, u |-> <<0>>, Q |-> <<<<"0.3">>>>, R |-> <<<<"0.2">>>>, al |-> t[1], be |-> t[2], ka |-> t[3], m |-> m]
F2(t) == [x |-> <<"1.5", -1>>, P |-> <<<<"0.8", "0.3">>, <<"0.3", "0.5">>>>, u |-> <<1>>, Q |-> <<<<"0.3", "0.1">>, <<"0.1", "0.2">>>>,
          R |-> <<<<"0.2", 0, 0>>, <<0, "0.3", "0.1">>, <<0, "0.1", "0.4">>>>, al |-> t[1], be |-> t[2], ka |-> t[3], m |-> M2]
Us == {<<"0">>, <<"1.5">>}
Ys(k) == IF k = 1 THEN {<<"2">>, <<"4.5">>} ELSE {<<"2", "0", "1">>, <<"1", "-0.5", "3">>}
MCInit == Init /\ n = 0 /\ done = <<>>
MCNext ==
    \/ n = 0 /\ n' = 1 /\ done' = <<>> /\ \E tn \in Tunings : (\E q \in 1..2 : New(F1(IF q = 1 THEN M1 ELSE M3, tn))) \/ New(F2(tn))
    \/ /\ n > 0 /\ n < Depth /\ n' = n + 1
       /\ \E u \in Us : \E y \in Ys(Len(fs[1].R)) : LET a == Update(fs[1], u, y) IN Step(1, u, a.x, a.P) /\ done' = <<fs[1], u, y>>
Tol == "1e-18"
IsLinear(m) == RLe(RAdd(MMax(m.G), MMax(m.H)), 0)
(* On a linear model every tuning gives the Kalman filter *)
KalmanLimit == done # <<>> /\ IsLinear(done[1].m) =>
    LET k == Kalman(done[1], done[2], done[3]) a == Update(done[1], done[2], done[3]) IN
    SameNest(k.x, fs[1].x, Tol, 1) /\ SameNest(k.P, fs[1].P, Tol, 1) /\ SameNest(k.y, a.y, Tol, 1) /\ SameNest(k.Py, a.Py, Tol, 1)
Valid == \A i \in 1..Len(fs) : SameNest(fs[i].P, T(fs[i].P), Tol, 1) /\ PosDef(Sym(fs[i].P))
(* Measuring never makes a linear filter less certain *)
Shrinks == done # <<>> /\ IsLinear(done[1].m) => PosSemi(MSub(Update(done[1], done[2], done[3]).Pm, fs[1].P), "1e-18")
(* The sigma points have the mean and the covariance of the estimate and its noise *)
Moments == n > 0 => LET f == fs[1] p == Points(f) s == [k \in 1..Len(p) |-> p[k].x \o p[k].w \o p[k].v] mu == MeanOf(f, s) IN
    /\ Len(s) = 2 * Dim(f) + 1
    /\ SameNest(mu, f.x \o Vec(Dim(f) - Len(f.x), LAMBDA i : 0), Tol, 1)
    /\ SameNest(CrossOf(f, s, mu, s, mu), Blocks(<<f.P, f.Q, f.R>>), Tol, 1)
    /\ REq(RAdd(WMean0(f), RMul(2 * Dim(f), WRest(f))), 1) \/ RClose(RAdd(WMean0(f), RMul(2 * Dim(f), WRest(f))), 1, Tol, 1)
MCSpec == MCInit /\ [][MCNext]_<<fs, n, done>>
=============================================================================
