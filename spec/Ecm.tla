-------------------------------- MODULE Ecm --------------------------------
(* The equivalent circuit of one cell: open-circuit voltage, series          *)
(* resistance, optional series capacitance, any number of RC elements and    *)
(* hysteresis.                                                               *)
(*                                                                           *)
(* Health (arrays have one row per member of the batch, or one for all):     *)
(*   qt (Ah), ce : columns;   ocv, ent, h0 : tables [v, pin, style];         *)
(*   tref : column;  gamma : column (of hysteresis);                         *)
(*   r0 : [v, pin, style, g, tref];  c0 : <<>> or <<table>>;                 *)
(*   rc : sequence of [r, c].                                                *)
(* State of one cell: [soc, q0 (<<>> or <<charge>>), irc, hyst].             *)
(* Inputs: [t, i, temp (<<>> or <<value>>)].                                 *)
EXTENDS Interp, Integers, Sequences
LOCAL INSTANCE Num
LOCAL INSTANCE TLC

Pick(m, b) == m[((b - 1) % Len(m)) + 1]
One(m, b) == Pick(m, b)[1]
Tab(f, b) == Table(Pick(f.v, b), f.pin, f.style)
AtSoc(f, b, soc) == Value(Tab(f, b), soc)
(* Resistances fall exponentially with temperature *)
Heat(f, b, temp) == IF temp = <<>> THEN R(1) ELSE RExp(RNeg(RMul(One(f.g, b), RSub(temp[1], f.tref))))
Ohm(f, b, soc, temp) == RMul(AtSoc(f, b, soc), Heat(f, b, temp))
Ocv(a, b, soc, temp) ==
    IF temp = <<>> THEN AtSoc(a.ocv, b, soc)
    ELSE RAdd(AtSoc(a.ocv, b, soc), RMul(RSub(temp[1], One(a.tref, b)), AtSoc(a.ent, b, soc)))
Tau(e, b, soc, temp) == RMul(Ohm(e.r, b, soc, temp), AtSoc(e.c, b, soc))
Capacity(a, b) == RMul(3600, One(a.qt, b))

(* A step from inputs p to inputs u.  In the constant mode the current of    *)
(* the start of the step passes; in the linear mode it varies linearly.      *)
Dt(p, u) == RSub(u.t, p.t)
Slope(mode, p, u) == IF mode = "constant" \/ REq(u.t, p.t) THEN R(0) ELSE RDiv(RSub(u.i, p.i), Dt(p, u))
Passed(mode, p, u) ==
    IF mode = "constant" THEN RMul(Dt(p, u), p.i) ELSE RDiv(RMul(Dt(p, u), RAdd(p.i, u.i)), 2)
Direction(mode, p, u) == IF mode # "constant" /\ RSgn(p.i) = 0 THEN RSgn(u.i) ELSE RSgn(p.i)
Efficiency(a, b, dir) == IF dir < 0 THEN R(1) ELSE R(One(a.ce, b))

NewSoc(mode, a, b, x, p, u) ==
    RAdd(x.soc, RDiv(RMul(Efficiency(a, b, Direction(mode, p, u)), Passed(mode, p, u)), Capacity(a, b)))
NewQ0(mode, x, p, u) == IF x.q0 = <<>> THEN <<>> ELSE <<RAdd(x.q0[1], Passed(mode, p, u))>>

(* 1 - exp(-x), of which most digits would cancel for small x *)
Lost(x) == IF RLt(RAbs(x), "1e-12") THEN RSub(x, RMul(RMul(x, x), RSub("0.5", RDiv(x, 6)))) ELSE RSub(1, RExp(RNeg(x)))
(* Relaxation with time constant tau towards the current, which ends at u.i and has the given slope *)
Branch(i0, tau, dt, slope, iend) ==
    LET lost == Lost(RDiv(dt, tau))
        start == RSub(iend, RMul(slope, dt)) IN
    RAdd(RMul(RSub(1, lost), i0), RAdd(RMul(lost, RSub(start, RMul(slope, tau))), RMul(slope, dt)))
NewIrc(mode, a, b, x, p, u) ==
    TLCEval([k \in 1..Len(x.irc) |-> Branch(x.irc[k], Tau(a.rc[k], b, x.soc, p.temp), Dt(p, u), Slope(mode, p, u), u.i)])

Approach(h, goal, rate, charge) == LET e == RExp(RNeg(RMul(rate, RAbs(charge)))) IN RAdd(RMul(e, h), RMul(RSub(1, e), goal))
NewHyst(mode, a, b, x, p, u) ==
    LET dir == Direction(mode, p, u)
        goal == RMul(AtSoc(a.h0, b, x.soc), dir)
        rate == RDiv(RMul(Efficiency(a, b, dir), One(a.gamma, b)), Capacity(a, b))
        slope == Slope(mode, p, u) IN
    IF RSgn(slope) = 0 \/ RSgn(RMul(p.i, u.i)) >= 0 THEN Approach(x.hyst, goal, rate, Passed(mode, p, u))
    ELSE LET t0 == RNeg(RDiv(p.i, slope))          \* the current changes sign: first to one asymptote, then to the other
             mid == Approach(x.hyst, goal, rate, RDiv(RMul(p.i, t0), 2)) IN
         Approach(mid, RNeg(goal), rate, RDiv(RMul(u.i, RSub(Dt(p, u), t0)), 2))

Step(mode, a, b, x, p, u) ==
    TLCEval([soc |-> NewSoc(mode, a, b, x, p, u), q0 |-> NewQ0(mode, x, p, u),
             irc |-> NewIrc(mode, a, b, x, p, u), hyst |-> NewHyst(mode, a, b, x, p, u)])

Volts(a, b, x, u) ==
    RAdd(RAdd(Ocv(a, b, x.soc, u.temp), RMul(u.i, Ohm(a.r0, b, x.soc, u.temp))),
         RAdd(IF x.q0 = <<>> THEN 0 ELSE RDiv(x.q0[1], AtSoc(a.c0[1], b, x.soc)),
              RAdd(RSum([k \in 1..Len(x.irc) |-> RMul(x.irc[k], Ohm(a.rc[k].r, b, x.soc, u.temp))]), x.hyst)))

(* Energy (Wh) between two states of charge at a temperature: capacity times integral of the open-circuit voltage *)
Energy(a, b, lo, hi, temp, n) ==
    LET h == RDiv(RSub(hi, lo), n)
        t == Tab(a.ocv, b)
        s == Tab(a.ent, b)
        at(k) == LET soc == RAdd(lo, RMul(k, h)) IN
                 IF temp = <<>> THEN Value(t, soc) ELSE RAdd(Value(t, soc), RMul(RSub(temp[1], One(a.tref, b)), Value(s, soc)))
        v == TLCEval([k \in 1..(n + 1) |-> at(k - 1)]) IN
    RMul(One(a.qt, b), RMul(h, RSub(RSum(v), RDiv(RAdd(v[1], v[n+1]), 2))))
=============================================================================
