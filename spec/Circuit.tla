------------------------------ MODULE Circuit ------------------------------
(* The circuit of Ecm.tla as a cell of which states and parameters are       *)
(* vectors with names.   layout: [q (0 or 1), nw (RC elements), nT (0 or 1), *)
(* ne = 0, mode];  health as in Ecm.tla.                                     *)
(*   state: soc, q0 (if present), i_rc_1 .., hyst                            *)
EXTENDS Mat, Check
LOCAL INSTANCE TLC
E == INSTANCE Ecm
RcName(k, what) == "rc_elements." \o ToString(k - 1) \o "." \o what \o ".base_values"
RcAt(h, nm, what) == {k \in 1..Len(h.rc) : RcName(k, what) = nm}
Only(S) == CHOOSE k \in S : TRUE
GetOne(h, nm) ==
    CASE nm = "q_t.base_values" -> h.qt[1] [] nm = "ce" -> h.ce[1] [] nm = "ocv.ocv_ref.base_values" -> h.ocv.v[1] [] nm = "ocv.ocv_ent.base_values" -> h.ent.v[1]
      [] nm = "r0.base_values" -> h.r0.v[1] [] nm = "c0.base_values" -> h.c0[1].v[1] [] nm = "h0.base_values" -> h.h0.v[1] [] nm = "h0.gamma" -> h.gamma[1]
      [] nm = "r0.temperature_dependence_factor" -> h.r0.g[1]
      [] RcAt(h, nm, "r") # {} -> h.rc[Only(RcAt(h, nm, "r"))].r.v[1]
      [] RcAt(h, nm, "c") # {} -> h.rc[Only(RcAt(h, nm, "c"))].c.v[1]
PutOne(h, nm, x) ==
    CASE nm = "q_t.base_values" -> [h EXCEPT !.qt = <<x>>] [] nm = "ce" -> [h EXCEPT !.ce = <<x>>]
      [] nm = "ocv.ocv_ref.base_values" -> [h EXCEPT !.ocv.v = <<x>>] [] nm = "ocv.ocv_ent.base_values" -> [h EXCEPT !.ent.v = <<x>>]
      [] nm = "r0.base_values" -> [h EXCEPT !.r0.v = <<x>>] [] nm = "c0.base_values" -> [h EXCEPT !.c0[1].v = <<x>>]
      [] nm = "h0.base_values" -> [h EXCEPT !.h0.v = <<x>>] [] nm = "h0.gamma" -> [h EXCEPT !.gamma = <<x>>]
      [] nm = "r0.temperature_dependence_factor" -> [h EXCEPT !.r0.g = <<x>>]
      [] RcAt(h, nm, "r") # {} -> [h EXCEPT !.rc[Only(RcAt(h, nm, "r"))].r.v = <<x>>]
      [] RcAt(h, nm, "c") # {} -> [h EXCEPT !.rc[Only(RcAt(h, nm, "c"))].c.v = <<x>>]
Dimx(lay) == 2 + lay.q + lay.nw
Rec(lay, x) == [soc |-> x[1], q0 |-> IF lay.q = 1 THEN <<x[2]>> ELSE <<>>, irc |-> SubSeq(x, 2 + lay.q, 1 + lay.q + lay.nw), hyst |-> x[2 + lay.q + lay.nw]]
In(lay, u) == [t |-> u[1], i |-> u[2], temp |-> IF lay.nT = 1 THEN <<u[3]>> ELSE <<>>]
Evolve(lay, h, x, u0, u1) == LET y == E!Step(lay.mode, h, 1, Rec(lay, x), In(lay, u0), In(lay, u1)) IN TLCEval(<<y.soc>> \o y.q0 \o y.irc \o <<y.hyst>>)
Volt(lay, h, x, u) == E!Volts(h, 1, Rec(lay, x), In(lay, u))
(* Capacity and resistance change with the charge and the voltage *)
Degrade(deg, lay, h, u, x, V) ==
    IF deg = "none" THEN h
    ELSE TLCEval([h EXCEPT !.qt = <<<<RMul(h.qt[1][1], RSub(1, RMul("0.001", RMul(u[2], u[2]))))>>>>,
                           !.r0.v = <<[j \in 1..Len(h.r0.v[1]) |-> RAdd(h.r0.v[1][j], RMul("0.0001", RAdd(V, RMul(j, x[1]))))]>>])
=============================================================================
