-------------------------------- MODULE Loss --------------------------------
(* Offline estimation.  A loss is [lay, base, sel, x, rows]: layout of the   *)
(* cell, health as given, parameters to be estimated, initial state and      *)
(* measured rows [t, i, tp, v].  It is a function of a vector (initial state  *)
(* followed by the parameters) and of nothing else.                          *)
EXTENDS Cells
LOCAL INSTANCE TLC
VARIABLES ls
Inp(r) == <<r.t, r.i, r.tp>>
StatePart(c, vec) == SubSeq(vec, 1, Dimx(c.lay))
HealthPart(c, vec) == PutSel(c.lay, c.base, c.sel, SubSeq(vec, Dimx(c.lay) + 1, Len(vec)))
(* Predicted voltages of the rows, from the k-th on, when the state at the k-th row is x *)
RECURSIVE Predict(_, _, _, _)
Predict(c, h, x, k) ==
    <<Volt(c.lay, h, x, Inp(c.rows[k]))>> \o
    (IF k = Len(c.rows) THEN <<>> ELSE Predict(c, h, TLCEval(Evolve(c.lay, h, x, Inp(c.rows[k]), Inp(c.rows[k + 1]))), k + 1))
Predicted(c, vec) == Predict(c, HealthPart(c, vec), StatePart(c, vec), 1)
Mse(ps, ms) == RDiv(RSum([k \in 1..Len(ps) |-> RMul(RSub(ps[k], ms[k]), RSub(ps[k], ms[k]))]), Len(ps))
Measured(c) == [k \in 1..Len(c.rows) |-> c.rows[k].v]
Value(c, vec) == Mse(TLCEval(Predicted(c, vec)), Measured(c))
Start(c) == c.x \o GetSel(c.lay, c.base, c.sel)

Init == ls = <<>>
New(c) == ls' = Append(ls, c)
Evaluated == UNCHANGED ls           \* evaluations, minimisations, writes of the caller to its own objects
=============================================================================
