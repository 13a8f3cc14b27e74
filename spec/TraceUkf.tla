------------------------------ MODULE TraceUkf ------------------------------
EXTENDS Ukf, TraceLib
VARIABLES pred     \* what the step which is being replayed has to give
Scale(A) == RMax(MMax(A), "1e-40")
Close(e, g, tol) == SameNest(e, g, tol, Scale(e))
CV(clause, e, g, tol, scale) == CNest(clause, e, g, tol, scale)
Adopt(e) == SameNest(pred'.x, e.x, e.tol, RMax(VMax(pred'.x), RMax(VMax(pred'.xm), e.ux))) /\ (IsNearestSemi(e.P, pred'.P, "1e-6") \/ SameNest(pred'.P, e.P, e.tol, RMax(Scale(pred'.Pm), Scale(pred'.P))))
Act(e) ==
    CASE e.ev = "new" /\ e.err = "" -> New(e.f) /\ UNCHANGED pred
      [] e.ev = "step" -> /\ pred' = IF Regular(fs[e.i]) THEN Update(fs[e.i], e.u, e.y)
                                     ELSE UpdateFrom(fs[e.i], [k \in 1..Len(e.pts) |-> Split(fs[e.i], e.pts[k])], e.u, e.y)
                          /\ IF Adopt(e) THEN Step(e.i, e.u, e.x, e.P) ELSE Step(e.i, e.u, pred'.x, pred'.P)
      [] e.ev = "reset" -> fs' = <<>> /\ pred' = <<>>
      [] OTHER -> CallerWrites /\ UNCHANGED pred
(* Scale of the estimates: errors of rounding are relative to the terms of the sums *)
CheckStep(e) ==
    LET p == pred'
        sx == RMax(VMax(p.x), RMax(VMax(p.xm), e.ux))
        sp == RMax(Scale(p.Pm), Scale(p.P))
        sy == RMax(VMax(p.y), e.uy) IN
    CV("estimated mean", p.x, e.x, e.tol, sx)
    \o (IF PosSemi(p.P, "1e-12") THEN CV("estimated covariance", p.P, e.P, e.tol, sp)
        ELSE CTrue("estimated covariance is the nearest valid one", IsNearestSemi(e.P, p.P, "1e-6") \/ SameNest(p.P, e.P, e.tol, sp)))
    \o CTrue("estimated covariance is symmetric and positive semi-definite", PosDef(MAdd(Sym(e.P), MScale(RMul(e.tol, sp), Eye(Len(e.P))))) /\ SameNest(e.P, T(e.P), e.tol, sp))
    \o CV("predicted output", p.y, e.py, e.tol, sy) \o CV("covariance of the predicted output", p.Py, e.pP, e.tol, Scale(p.Py))
    \o CNestX("returned mean is the estimate", e.x, e.rx) \o CNestX("returned covariance is that of the estimate", e.P, e.rP)
    \o CNestX("controls kept", e.u, e.ku)
    \o Flat([k \in 1..Len(fs) |-> IF k = e.i THEN OK ELSE CNestX("another filter", <<fs[k].x>> \o fs[k].P, <<e.others[k].x>> \o e.others[k].P)])
CheckSigma(e) == CheckPoints(fs[e.i], e.pts, e.tol, e.ux)
CheckProject(e) ==
    LET S == e.S IN
    CNestX("matrix given to the projection", S, e.after)
    \o (IF Symmetric(S) /\ PosSemi(S, "1e-13") THEN CV("valid matrix is left unchanged", S, e.got, "1e-9", Scale(S))
        ELSE CTrue("projection is the nearest positive semi-definite matrix", Len(e.got) = Len(S) /\ IsNearestSemi(e.got, S, "1e-9")))
Check1(e) ==
    CASE e.ev = "crash" -> Mis("unexpected exception", "", e.what)
      [] e.ev = "new" -> IF Sound(e.f, e.nh, e.no) THEN CEq("making a filter", "", e.err) ELSE CTrue("unsound filter is refused", e.err # "")
      [] e.ev = "step" -> CheckStep(e) \o CheckSigma(e)
      [] e.ev = "sigma" -> CheckSigma(e)
      [] e.ev = "project" -> CheckProject(e)
      [] e.ev = "gain" -> CV("gain", e.cxy, MMul(e.got, e.cy), "1e-9", Scale(e.cxy))
      [] OTHER -> OK
TInit == Init /\ LibInit /\ pred = <<>>
TNext == More /\ Act(Line) /\ Report(Check1(Line))
TSpec == TInit /\ [][TNext]_l
=============================================================================
