----------------------------- MODULE TraceLoss -----------------------------
EXTENDS Loss, TraceLib
Act(e) ==
    CASE e.ev = "new" /\ e.err = "" -> New(e.c)
      [] e.ev = "reset" -> ls' = <<>>
      [] OTHER -> Evaluated
Top(x) == RMax(VMax(x), 1)
(* A loss reports the vector to start from; what it was made from stays as it was *)
CheckLoss(c, m) ==
    CNest("vector to start from", Start(c), m.x0, "1e-12", 1)
    \o CNestX("health given by the caller", Everything(c.lay, c.base), m.health) \o CNestX("state given by the caller", c.x, m.state)
    \o CNestX("data given by the caller", [k \in 1..Len(c.rows) |-> <<c.rows[k].t, c.rows[k].i, c.rows[k].v>>], m.data)
    \o CNest("health kept by the loss", Everything(c.lay, c.base), m.kept, "1e-12", 1) \o CNest("state kept by the loss", c.x, m.keptx, "1e-12", 1)
    \o CEq("parameters of the vector", SelNames(c.lay, c.base, c.sel), m.names)
CheckEval(c, m) ==
    CNestX("vectors given by the caller", m.xs, m.after) \o
    IF m.err # "" THEN Mis("evaluation of a batch", "", m.err)
    ELSE IF Len(m.values) # Len(m.xs) THEN Mis("one value per vector", Len(m.xs), m.values)
    ELSE Flat([k \in 1..Len(m.xs) |-> CNum("loss of a vector", Value(c, m.xs[k]), m.values[k], "1e-9", m.scale)])
(* A minimisation: best is the reported vector, fun the reported value, ox, oh the objects *)
CheckMin(c, m) ==
    IF m.err # "" THEN Mis("minimisation", "", m.err)
    ELSE LET v0 == Value(c, Start(c))
             v1 == Value(c, m.best) IN
        CNum("value at the reported optimum", v1, RMul(m.fun, RMax(v0, "1e-12")), "1e-7", "1e-9")
        \o CTrue("the optimum is no worse than the start", RLe(v1, RAdd(v0, RMul("1e-9", RAdd(v0, 1)))))
        \o CNest("state of the optimum", StatePart(c, m.best), m.ox, "1e-12", Top(m.best))
        \o CNest("health of the optimum", Everything(c.lay, HealthPart(c, m.best)), m.oh, "1e-12", Top(m.best))
        \o CEq("parameters marked in the health of the optimum", SelNames(c.lay, c.base, c.sel), m.onames)
(* Rows of predictions of a real model, member by member, and the losses it reports *)
CheckReal(m) == IF m.err # "" THEN Mis("evaluation of a batch", "", m.err)
    ELSE IF Len(m.values) # Len(m.preds) THEN Mis("one value per vector", Len(m.preds), m.values)
    ELSE Flat([k \in 1..Len(m.preds) |-> CNum("loss of a vector of a real cell", Mse(m.preds[k], m.meas), m.values[k], "1e-6", "1e-9")])
CheckLine(e) ==
    CASE e.ev = "crash" -> Mis("unexpected exception", "", e.what)
      [] e.ev = "new" -> IF e.err # "" THEN Mis("making a loss", "", e.err) ELSE CheckLoss(e.c, e)
      [] e.ev = "eval" -> CheckEval(ls[e.i], e) \o CheckLoss(ls[e.i], e)
      [] e.ev = "min" -> CheckMin(ls[e.i], e) \o CheckLoss(ls[e.i], e)
      [] e.ev = "write" -> CNest("vector to start from", Start(ls[e.i]), e.x0, "1e-12", 1)
      [] e.ev = "real" -> CheckReal(e)
      [] OTHER -> OK
TInit == Init /\ LibInit
TNext == More /\ Act(Line) /\ Report(CheckLine(Line))
TSpec == TInit /\ [][TNext]_<<ls, l, nbad>>
=============================================================================
