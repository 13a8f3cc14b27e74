------------------------------- MODULE MCEcm -------------------------------
(* All sequences of a few currents and durations, in both modes, on small    *)
(* circuits: the laws which the step of the circuit has to satisfy.          *)
EXTENDS Ecm, Num, TLC, Json
CONSTANTS Depth, Currents, Durations, Gen
VARIABLES mode, x, p, n, net, first, hist    \* net: charge passed so far, weighted with the efficiency
T(v) == [v |-> v, pin |-> <<>>, style |-> "linear"]
Res(v) == [v |-> v, pin |-> <<>>, style |-> "linear", g |-> <<<<"0.002">>>>, tref |-> 25]
A == [qt |-> <<<<1>>>>, ce |-> <<<<"0.9">>>>, ocv |-> T(<<<<3, 4>>>>), ent |-> T(<<<<"0.001">>>>), tref |-> <<<<25>>>>,
      r0 |-> Res(<<<<"0.1">>>>), c0 |-> <<T(<<<<10000>>>>)>>, gamma |-> <<<<2>>>>,
      rc |-> <<[r |-> Res(<<<<"0.05", "0.02">>>>), c |-> T(<<<<1000>>>>)], [r |-> Res(<<<<"0.01">>>>), c |-> T(<<<<100>>>>)]>>, h0 |-> T(<<<<"0.05", "0.02">>>>)]
Cur(c) == c - 5    \* configuration files know no negative numbers: currents are shifted by 5
In(t, i) == [t |-> t, i |-> i, temp |-> <<30>>]
Start == [soc |-> R("0.5"), q0 |-> <<R(0)>>, irc |-> <<R(0), R(2)>>, hyst |-> R("0.01")]
MCInit == mode \in {"constant", "linear"} /\ x = Start /\ (\E i \in Currents : p = In(0, Cur(i)) /\ first = i) /\ n = 0 /\ net = R(0) /\ hist = <<>>
Do(i, dt) ==
    LET u == In(RAdd(p.t, dt), Cur(i)) IN
    /\ n < Depth
    /\ n' = n + 1 /\ mode' = mode /\ first' = first
    /\ x' = Step(mode, A, 1, x, p, u)
    /\ net' = RAdd(net, RMul(Efficiency(A, 1, Direction(mode, p, u)), Passed(mode, p, u)))
    /\ p' = u
    /\ hist' = Append(hist, [i |-> i, dt |-> dt])
MCNext == \E i \in Currents, dt \in Durations : Do(i, dt)
MCSpec == MCInit /\ [][MCNext]_<<mode, x, p, n, net, first, hist>>
View == <<mode, x, p, n, net>>

Abs2(a, b) == RMax(RAbs(a), RAbs(b))
Between(v, lo, hi) == RLe(RSub(lo, "1e-25"), v) /\ RLe(v, RAdd(hi, "1e-25"))
Near(v, w) == RLe(RAbs(RSub(v, w)), "1e-25")
Charge == Near(x.soc, RAdd("0.5", RDiv(net, 3600)))
HystBound == [][LET g == RAbs(AtSoc(A.h0, 1, x.soc)) IN Between(x'.hyst, RMin(x.hyst, RNeg(g)), RMax(x.hyst, g))]_n
Bounded == [][\A k \in 1..2 :
    LET i0 == IF mode = "constant" THEN p'.i ELSE p.i
        lo == RMin(x.irc[k], RMin(i0, p'.i))
        hi == RMax(x.irc[k], RMax(i0, p'.i)) IN Between(x'.irc[k], lo, hi)]_n
SameState(y, z) == Near(y.soc, z.soc) /\ Near(y.q0[1], z.q0[1]) /\ Near(y.hyst, z.hyst) /\ \A k \in 1..2 : Near(y.irc[k], z.irc[k])
NoTime == [][REq(p.t, p'.t) => /\ SameState(x', x)]_n
Same == [][REq(p.i, p'.i) => SameState(Step("linear", A, 1, x, p, p'), Step("constant", A, 1, x, p, p'))]_n
Rest == [][mode = "constant" /\ REq(p.i, 0) => Near(x'.hyst, x.hyst) /\ Near(x'.soc, x.soc)]_n
(* Halving a step at constant current changes nothing in the constant mode (as long as the parameters do not depend on SOC) *)
Flat1 == [A EXCEPT !.rc = <<[r |-> Res(<<<<"0.05">>>>), c |-> T(<<<<1000>>>>)], A.rc[2]>>, !.h0 = T(<<<<"0.05">>>>)]
Split == [][REq(p.i, p'.i) =>
    LET m == In(RDiv(RAdd(p.t, p'.t), 2), p.i)
        once == Step(mode, Flat1, 1, x, p, p')
        twice == Step(mode, Flat1, 1, Step(mode, Flat1, 1, x, p, m), m, p') IN
    SameState(once, twice)]_n
(* A ramp can be cut anywhere as well; the hysteresis and efficiency can only be cut where the current keeps its sign *)
SplitRamp == [][mode = "linear" =>
    LET m == In(RDiv(RAdd(p.t, p'.t), 2), RDiv(RAdd(p.i, p'.i), 2))
        once == Step(mode, Flat1, 1, x, p, p')
        twice == Step(mode, Flat1, 1, Step(mode, Flat1, 1, x, p, m), m, p') IN
    /\ Near(once.q0[1], twice.q0[1]) /\ \A k \in 1..2 : Near(once.irc[k], twice.irc[k])
    /\ RLe(0, RMul(p.i, p'.i)) => Near(once.soc, twice.soc) /\ Near(once.hyst, twice.hyst)]_n
Emit == (Gen /\ n = Depth) => PrintT("HIST " \o ToJson([mode |-> mode, steps |-> hist, first |-> first]))
=============================================================================
