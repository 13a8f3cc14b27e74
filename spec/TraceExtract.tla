---------------------------- MODULE TraceExtract ----------------------------
EXTENDS Extract, TraceLib
Act(e) ==
    CASE e.ev = "load" -> Load(e.d)
      [] e.ev = "reset" -> ds' = <<>>
      [] OTHER -> Extracted
(* The rows whose curve is wanted are those of the dataset *)
CheckCurve(e) ==
    CTrue("the data stay as they were", e.same) \o
    IF ds[e.i].raw = <<>> \/ e.missing THEN (IF e.err = "" THEN Mis("missing data are refused", "refused", "accepted") ELSE OK)
    ELSE IF ~Determined(ds[e.i].raw[1], e.cap, e.pts) THEN OK
    ELSE LET y == Curve(ds[e.i].raw[1], e.cap, e.pts) IN
        IF y = <<>> THEN Mis("the specification determines the curve", "", "")
        ELSE IF e.err # "" THEN Mis("extraction of a curve", "", e.err)
        ELSE CNest("points of the curve", e.pts, e.pins, "1e-12", 1) \o CNest("extracted voltages", y, e.got, e.tol, 1) \o CEq("interpolation", e.style, e.gotstyle)
             \o CNest("voltages of the curve at its points", y, e.at, e.tol, 1)
CheckCapacity(e) ==
    CTrue("the data stay as they were", e.same) \o
    IF ds[e.i].raw = <<>> /\ ds[e.i].cycles = <<>> THEN (IF e.err = "" THEN Mis("missing data are refused", "refused", "accepted") ELSE OK)
    ELSE IF e.err # "" THEN Mis("extraction of the capacity", "", e.err)
    ELSE LET q == Largest(ds[e.i]) IN CNum("largest capacity", q, e.got, "1e-9", "1e-6")
CheckCheck(e) ==
    CTrue("the data stay as they were", e.same) \o
    LET ok == Accepted(ds[e.i], e.cap, e.req) IN
    IF ok /\ e.err # "" THEN Mis("acceptable data", "accepted", e.err) ELSE IF ~ok /\ e.err = "" THEN Mis("unsuitable data are refused", "refused", "accepted") ELSE OK
CheckLine(e) ==
    CASE e.ev = "crash" -> Mis("unexpected exception", "", e.what)
      [] e.ev = "curve" -> CheckCurve(e)
      [] e.ev = "capacity" -> CheckCapacity(e)
      [] e.ev = "check" -> CheckCheck(e)
      [] OTHER -> OK
TInit == Init /\ LibInit
TNext == More /\ Act(Line) /\ Report(CheckLine(Line))
TSpec == TInit /\ [][TNext]_<<ds, l, nbad>>
=============================================================================
