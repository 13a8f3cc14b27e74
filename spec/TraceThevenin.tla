--------------------------- MODULE TraceThevenin ---------------------------
EXTENDS Thevenin, TraceLib
Act(e) ==
    CASE e.ev = "begin" -> Begin(e.c, e.p)
      [] e.ev = "step" /\ e.err = "" -> Step(e.i, e.u)
      [] e.ev = "reset" -> ths' = <<>>
      [] OTHER -> Looked
Rows(clause, m, B, Want(_), tol, scale) ==
    IF ~IsSeq(m) \/ Len(m) \notin {1, B} THEN Mis("rows of " \o clause, B, m)
    ELSE Flat([b \in 1..B |-> CNest(clause \o " of a member", Want(b), Pick(m, b), tol, scale)])
CheckStep(e) ==
    IF e.err # "" THEN Mis("step", "", e.err)
    ELSE LET x == ths'[e.i].c.x
             B == ths'[e.i].c.B IN
        Rows("charge", e.o.soc, B, LAMBDA b : x.soc[b], "1e-9", 1) \o Rows("temperature", e.o.temp, B, LAMBDA b : x.temp[b], "1e-9", 1)
        \o Rows("branch voltages", e.o.eta, B, LAMBDA b : x.eta[b], "1e-9", 1) \o CEq("objects given by the caller", TRUE, e.same)
CheckVolts(e) ==
    IF e.err # "" THEN Mis("voltage", "", e.err)
    ELSE LET c == ths[e.i].c IN Rows("voltage", e.v, c.B, LAMBDA b : <<VoltOf(c, b, e.u)>>, "1e-9", 1) \o CEq("objects given by the caller", TRUE, e.same)
(* A component evaluated on its own: for member e.b (0: every member) at given points *)
Value(f, b, soc, temp) == IF Has(f, "ref") THEN Res(f, b, soc, temp) ELSE Poly(Pick(f.s, b), soc)
CheckPoly(e) ==
    IF e.err # "" THEN Mis("evaluation of a component", "", e.err)
    ELSE IF e.b > 0 THEN CNest("component of a member", [k \in 1..Len(e.socs) |-> Value(e.f, e.b, e.socs[k], Pick(e.temps, k))], e.got, "1e-10", 1)
    ELSE CNest("component of all members", [k \in 1..e.n |-> Value(e.f, k, Pick(e.socs, k), Pick(e.temps, k))], e.got, "1e-10", 1)
CheckLine(e) ==
    CASE e.ev = "crash" -> Mis("unexpected exception", "", e.what)
      [] e.ev = "step" -> CheckStep(e)
      [] e.ev = "volts" -> CheckVolts(e)
      [] e.ev = "poly" -> CheckPoly(e)
      [] OTHER -> OK
TInit == Init /\ LibInit
TNext == More /\ Act(Line) /\ Report(CheckLine(Line))
TSpec == TInit /\ [][TNext]_<<ths, l, nbad>>
=============================================================================
