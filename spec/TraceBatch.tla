----------------------------- MODULE TraceBatch -----------------------------
EXTENDS Batch, TraceLib
Act(e) ==
    CASE e.ev = "start" -> Start(e.B)
      [] e.ev = "alone" -> Alone(e.result)
      [] e.ev = "renew" -> Renew(e.b, e.result)
      [] e.ev = "together" -> IF e.last THEN Together ELSE Evaluated
      [] e.ev = "reset" -> Start(1)
      [] OTHER -> Evaluated
CheckLine(e) ==
    CASE e.ev = "crash" -> Mis("unexpected exception", "", e.what)
      [] e.ev = "together" -> Agrees(e.table, e.names, e.tol)
      [] OTHER -> OK
TInit == Init /\ LibInit
TNext == More /\ Act(Line) /\ Report(CheckLine(Line))
TSpec == TInit /\ [][TNext]_<<alone, size, l, nbad>>
=============================================================================
