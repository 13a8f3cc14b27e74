----------------------------- MODULE TraceGauss -----------------------------
EXTENDS Gauss, TraceLib
Act(e) ==
    CASE e.ev = "make" /\ Fits(e.d.mean, e.d.cov) -> Make(e.d)
      [] e.ev = "convert" -> MakeConverted(e.i, e.op, e.inv)
      [] e.ev = "combine" -> MakeCombined(e.s)
      [] e.ev = "reset" -> ds' = <<>>
      [] OTHER -> CallerWrites
Tol == "1e-8"
(* Quantities of very different magnitudes are compared in units of their own *)
InUnits(x, u) == Vec(Len(x), LAMBDA k : RDiv(x[k], u[k]))
CovInUnits(c, u) == [i \in 1..Len(c) |-> Vec(Len(c), LAMBDA k : RDiv(c[i][k], RMul(u[i], u[k])))]
CDist(clause, d, g) ==
    IF Has(g, "unit") THEN CNest(clause \o ": mean (in units of each)", InUnits(d.mean, g.unit), InUnits(g.mean, g.unit), Tol, 1)
                        \o CNest(clause \o ": covariance (in units of each)", CovInUnits(d.cov, g.unit), CovInUnits(g.cov, g.unit), Tol, 1)
    ELSE
    CEq(clause \o ": kind", d.kind, g.kind) \o CEq(clause \o ": dimensions", Len(d.mean), g.dim)
    \o CNest(clause \o ": mean", d.mean, g.mean, Tol, RMax(VMax(d.mean), "1e-30")) \o CNest(clause \o ": covariance", d.cov, g.cov, Tol, RMax(MMax(d.cov), "1e-30"))
    \o (IF SameNest(d.cov, g.cov, Tol, RMax(MMax(d.cov), "1e-30")) THEN CTrue(clause \o ": covariance is symmetric and positive semi-definite", PosSemi(g.cov, "1e-9") /\ SameNest(g.cov, T(g.cov), "1e-9", MMax(g.cov))) ELSE OK)
Points(e) == [r \in 1..Len(e.x) |-> IF e.inv THEN Back(e.op, e.x[r]) ELSE Fwd(e.op, e.x[r])]
CM(clause, e, g) == CNest(clause, e, g, Tol, RMax(MMax(e), "1e-30"))
CheckLine(e) ==
    CASE e.ev = "crash" -> Mis("unexpected exception", "", e.what)
      [] e.ev = "samples" -> (IF Has(e, "unit")
                                 THEN CNest("converted points (in units of each)", [r \in 1..Len(e.x) |-> InUnits(Points(e)[r], e.unit)], [r \in 1..Len(e.x) |-> InUnits(e.got[r], e.unit)], Tol, 1)
                                 ELSE CM("converted points", Points(e), e.got)) \o CNestX("points given to a conversion", e.x, e.after)
      [] e.ev = "cov" -> CM("converted covariance", IF e.inv THEN BackCov(e.op, e.c, e.p) ELSE FwdCov(e.op, e.c, e.p), e.got)
                         \o CNestX("covariance given to a conversion", e.c, e.after) \o CNestX("pivot given to a conversion", e.p, e.pafter)
      [] e.ev = "make" /\ ~Fits(e.d.mean, e.d.cov) -> CTrue("shapes which do not fit are refused", e.err # "")
      [] e.ev = "make" /\ e.err # "" -> Mis("making a distribution", "", e.err)
      [] OTHER -> OK
CheckAll(e) ==
    CheckLine(e) \o
    (IF Has(e, "ds") THEN
        IF Len(e.ds) # Len(ds') THEN Mis("number of distributions", Len(ds'), Len(e.ds))
        ELSE Flat([i \in 1..Len(ds') |-> CDist("distribution", ds'[i], e.ds[i])])
     ELSE OK)
TInit == Init /\ LibInit
TNext == More /\ Act(Line) /\ Report(CheckAll(Line))
TSpec == TInit /\ [][TNext]_<<l, nbad>>
=============================================================================
