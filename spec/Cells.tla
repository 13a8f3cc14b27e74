------------------------------- MODULE Cells -------------------------------
(* Cells which can be estimated: that of Toy.tla (lay.cell = "toy") and the  *)
(* circuit of Ecm.tla (lay.cell = "circuit").                                *)
EXTENDS Mat, Check
LOCAL INSTANCE TLC
Ty == INSTANCE Toy
Ci == INSTANCE Circuit
IsToy(lay) == lay.cell = "toy"
GetOne(lay, h, nm) == IF IsToy(lay) THEN Ty!GetOne(h, nm) ELSE Ci!GetOne(h, nm)
PutOne(lay, h, nm, x) == IF IsToy(lay) THEN Ty!PutOne(h, nm, x) ELSE Ci!PutOne(h, nm, x)
RECURSIVE GetSel(_, _, _)
GetSel(lay, h, sel) == IF sel = <<>> THEN <<>> ELSE GetOne(lay, h, Head(sel)) \o GetSel(lay, h, Tail(sel))
RECURSIVE PutSel(_, _, _, _)
PutSel(lay, h, sel, x) == IF sel = <<>> THEN h
    ELSE LET k == Len(GetOne(lay, h, Head(sel))) IN PutSel(lay, PutOne(lay, h, Head(sel), SubSeq(x, 1, k)), Tail(sel), SubSeq(x, k + 1, Len(x)))
ManyNames(nm, k) == IF k = 1 THEN <<nm>> ELSE [i \in 1..k |-> nm \o "[" \o ToString(i - 1) \o "]"]
RECURSIVE SelNames(_, _, _)
SelNames(lay, h, sel) == IF sel = <<>> THEN <<>> ELSE ManyNames(Head(sel), Len(GetOne(lay, h, Head(sel)))) \o SelNames(lay, h, Tail(sel))
Dimx(lay) == IF IsToy(lay) THEN Ty!Dimx(lay) ELSE Ci!Dimx(lay)
Evolve(lay, h, x, u0, u1) == IF IsToy(lay) THEN Ty!Evolve(lay, h, x, u0, u1) ELSE Ci!Evolve(lay, h, x, u0, u1)
Volt(lay, h, x, u) == IF IsToy(lay) THEN Ty!Volt(lay, h, x, u) ELSE Ci!Volt(lay, h, x, u)
Output(lay, h, x, u) == IF IsToy(lay) THEN Ty!Output(lay, h, x, u) ELSE <<Ci!Volt(lay, h, x, u)>>
Degrade(deg, lay, h, u, x, V) == IF IsToy(lay) THEN Ty!Degrade(deg, lay, h, u, x, V) ELSE Ci!Degrade(deg, lay, h, u, x, V)
Few(nm, k) == IF k = 0 THEN <<>> ELSE ManyNames(nm, k)
StateNamesOf(lay) == IF IsToy(lay) THEN <<"s">> \o Few("q", lay.q) \o Few("w", lay.nw) ELSE <<"soc">> \o Few("q0", lay.q) \o Few("i_rc", lay.nw) \o <<"hyst">>
OutputNamesOf(lay) == <<"terminal_voltage">> \o Few("e", lay.ne)
ControlNamesOf(lay) == <<"time", "current">> \o Few("temperature", lay.nT)
(* The parameters of a description, in a fixed order *)
Everything(lay, h) == IF IsToy(lay) THEN <<<<h.a>>, h.v, <<h.b>>, <<h.z>>>> ELSE [i \in 1..Len(lay.all) |-> Ci!GetOne(h, lay.all[i])]
=============================================================================
