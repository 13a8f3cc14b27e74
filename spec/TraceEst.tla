------------------------------ MODULE TraceEst ------------------------------
EXTENDS Estimator, TraceLib
VARIABLES out      \* predicted output of the step which is being replayed
(* Without unique factors (something is known exactly) the points which were used come with the step *)
Split(f, rows) == [k \in 1..Len(rows) |-> U!Split(f, rows[k])]
Stepping(e, m) == IF m.pts = <<>> THEN After(e, m.u, m.y) ELSE AfterFrom(e, m.u, m.y, Split(e.f, m.pts[1]), IF e.kind = "joint" THEN <<>> ELSE Split(e.g, m.pts[2]))
CheckSigma(e, m) == IF m.pts = <<>> THEN OK ELSE U!CheckPoints(e.f, m.pts[1], m.tol, 1) \o (IF e.kind = "joint" THEN OK ELSE U!CheckPoints(e.g, m.pts[2], m.tol, 1))
Act(e) ==
    CASE e.ev = "new" /\ e.err = "" -> New(e.d) /\ UNCHANGED out
      [] e.ev = "step" -> LET a == Stepping(es[e.i], e) IN es' = [es EXCEPT ![e.i] = a.e] /\ out' = [y |-> a.y, Py |-> a.Py]
      [] e.ev = "reset" -> es' = <<>> /\ out' = <<>>
      [] OTHER -> CallerWrites /\ UNCHANGED out
Top(x) == RMax(VMax(x), 1)
(* Covariances after nearly exact measurements are differences of much larger numbers *)
Wide(A, tol) == RMax(MMax(A), IF RLt("1e-5", tol) THEN "1e-2" ELSE "1e-6")
CV(clause, e, g, tol, scale) == CNest(clause, e, g, tol, scale)
(* States and parameters are compared in units of their magnitude *)
Fits(x, k) == IsSeq(x) /\ Len(x) = k
InUnits(e, x) == IF ~Fits(x, Len(e.mag)) THEN x ELSE Vec(Len(x), LAMBDA k : RDiv(x[k], e.mag[k]))
CovInUnits(e, c) == LET n == Len(e.mag) IN IF ~Fits(c, n) THEN c ELSE IF \E i \in 1..n : ~Fits(c[i], n) THEN c
                    ELSE Mtx(n, n, LAMBDA i, j : RDiv(c[i][j], RMul(e.mag[i], e.mag[j])))
Mean(clause, e, s, g, tol) == LET x == InUnits(e, s.mean) IN CV(clause \o ": mean", x, InUnits(e, g), tol, Top(x))
Cov(clause, e, s, g, tol) == LET c == CovInUnits(e, s.cov) IN CV(clause \o ": covariance", c, CovInUnits(e, g), tol, Wide(c, tol))
CheckState(clause, e, m, tol) ==
    LET s == StateOf(e) IN
    Mean(clause, e, s, m.sm, tol) \o Cov(clause, e, s, m.sP, tol)
    \o CV(clause \o ": estimated state of the cell", XOf(e), m.ox, tol, Top(s.mean))
    \o CV(clause \o ": estimated health of the cell", Everything(e.lay, HOf(e)), m.oh, tol, Top(s.mean))
CheckOthers(m, k) == Flat([i \in 1..Len(es') |-> IF i = k THEN OK ELSE Mean("another estimator", es'[i], StateOf(es'[i]), m.all[i], m.tols[i])])
CheckNew(m) ==
    LET e == es'[Len(es')] IN
    CEq("names of the state", StateNames(e), m.names.state) \o CEq("names of the outputs", OutputNames(e), m.names.output) \o CEq("names of the controls", ControlNames(e), m.names.control)
    \o CEq("dimensions", <<Len(StateNames(e)), Len(OutputNames(e))>>, m.dims) \o CheckState("new estimator", e, m, m.tol)
(* A step as the real code reports it.  The scale of the covariance is that of the terms of its sum *)
CheckStep(m) ==
    LET e == es'[m.i]
        s == StateOf(e) IN
    Mean("estimate returned by the step", e, s, m.rm, m.tol) \o Cov("estimate returned by the step", e, s, m.rP, m.tol)
    \o CheckState("estimator after the step", e, m, m.tol)
    \o CV("predicted output", out'.y, m.ym, m.tol, Top(out'.y)) \o CV("covariance of the predicted output", out'.Py, m.yP, m.tol, Wide(out'.Py, m.tol)) \o CheckOthers(m, m.i)
(* Models as the filters see them: points in the coordinates of the filter.  e: estimator whose description d was given *)
Rows(xs, Fun(_)) == [k \in 1..Len(xs) |-> Fun(xs[k])]
CheckModel(m, Ev(_), Pr(_), o) ==
    LET xs == Rows(m.rows, LAMBDA x : G!Back(o.h, Ev(G!Fwd(o.h, x))))
        ys == Rows(m.rows, LAMBDA x : G!Back(o.y, Pr(G!Fwd(o.h, x)))) IN
    CV("evolved points", xs, m.xs, "1e-9", RMax(MMax(xs), 1)) \o CV("predicted outputs of points", ys, m.ys, "1e-9", RMax(MMax(ys), 1)) \o CNestX("points given to the model", m.rows, m.after)
CheckPoints(m) ==
    LET e == Made(m.d)
        o == IF m.which = "health" THEN e.og ELSE e.o
        u0 == G!Fwd(o.u, m.u0)
        u1 == G!Fwd(o.u, m.u1) IN
    CEq("dimensions of the hidden state and the outputs", <<Len((IF m.which = "health" THEN e.g ELSE e.f).x), Len(OutputNames(e))>>, m.dims)
    \o CASE m.which = "joint" -> CheckModel(m, LAMBDA x : JEvolve(e, x, u0, u1), LAMBDA x : JPredict(e, x, u1), o)
         [] m.which = "state" -> CheckModel(m, LAMBDA x : XEvolve(e, e.base, x, u0, u1), LAMBDA x : XPredict(e, e.base, x, u1), o)
         [] OTHER -> CheckModel(m, LAMBDA x : HEvolve(e, m.d.x, x, u1), LAMBDA x : HPredict(e, m.d.x, x, u0, u1), o)
(* Objects made from hidden states of joint estimation, and back *)
CheckObjects(m) ==
    LET e == Made(m.d)
        n == Dimx(e.lay)
        phys == Rows(m.rows, LAMBDA x : G!Fwd(e.o.h, x)) IN
    CV("states made from hidden states", Rows(phys, LAMBDA r : SubSeq(r, 1, n)), m.ox, "1e-9", RMax(MMax(phys), 1))
    \o CV("health made from hidden states", Rows(phys, LAMBDA r : Flat(Everything(e.lay, PutSel(e.lay, e.base, e.sel, SubSeq(r, n + 1, Len(r)))))), m.oh, "1e-9", RMax(MMax(phys), 1))
    \o CV("hidden states made from objects", Rows(phys, LAMBDA r : G!Back(e.o.h, r)), m.back, "1e-9", RMax(MMax(m.rows), 1))
    \o CV("templates of the model", <<m.d.x>> \o Everything(e.lay, e.base), m.templates, "1e-12", 1)
CheckLine(e) ==
    CASE e.ev = "crash" -> Mis("unexpected exception", "", e.what)
      [] e.ev = "new" -> IF e.err # "" THEN Mis("making an estimator", "", e.err) ELSE CheckNew(e) \o CheckOthers(e, Len(es'))
      [] e.ev = "step" -> CheckSigma(es[e.i], e) \o CheckStep(e)
      [] e.ev = "points" -> CheckPoints(e)
      [] e.ev = "objects" -> CheckObjects(e)
      [] e.ev = "write" -> CheckOthers(e, 0)
      [] OTHER -> OK
TInit == Init /\ LibInit /\ out = <<>>
TNext == More /\ Act(Line) /\ Report(CheckLine(Line))
TSpec == TInit /\ [][TNext]_l
=============================================================================
