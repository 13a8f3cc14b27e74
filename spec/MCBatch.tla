------------------------------ MODULE MCBatch ------------------------------
(* Batches of two or three circuits in which any choice of quantities is     *)
(* given per member and the others are shared, driven through all sequences  *)
(* of a few currents: every member does what it would do on its own, and     *)
(* what happens to one member is of no importance to the others.             *)
EXTENDS Ecm, Num, TLC, Json, FiniteSets
CONSTANTS Size, Depth, Currents, Most, Gen, Defect
VARIABLES mode, mine, xs, p, n, hist      \* mine: the quantities which are given per member
Quantities == {"qt", "ce", "ocv", "ent", "tref", "r0", "g", "c0", "rcr", "rcc", "h0", "gamma", "soc", "q0", "irc", "hyst"}
(* Rows of a quantity: one for each member, or one for all *)
Rows(q, F(_)) == [b \in 1..(IF q \in mine THEN Size ELSE 1) |-> F(b)]
Tab3(q, F(_)) == [v |-> Rows(q, F), pin |-> <<>>, style |-> "linear"]
Ohm3(q, F(_)) == [v |-> Rows(q, F), pin |-> <<>>, style |-> "linear", g |-> Rows("g", LAMBDA b : <<RDiv(b, 500)>>), tref |-> 25]
Health(own) ==
    LET N(q, v, step) == Rows(q, LAMBDA b : <<RAdd(v, RMul(step, own[b]))>>) IN
    [qt |-> N("qt", 1, "0.5"), ce |-> N("ce", "0.9", "0.03"),
     ocv |-> Tab3("ocv", LAMBDA b : <<R(3), RAdd(4, RDiv(own[b], 10))>>), ent |-> Tab3("ent", LAMBDA b : <<RDiv(own[b], 1000)>>),
     tref |-> N("tref", 25, 1), r0 |-> Ohm3("r0", LAMBDA b : <<RDiv(own[b], 10)>>), c0 |-> <<Tab3("c0", LAMBDA b : <<RMul(own[b], 10000)>>)>>,
     rc |-> <<[r |-> Ohm3("rcr", LAMBDA b : <<RDiv(own[b], 20), "0.02">>), c |-> Tab3("rcc", LAMBDA b : <<RMul(own[b], 1000)>>)]>>,
     h0 |-> Tab3("h0", LAMBDA b : <<RDiv(own[b], 20), "0.02">>), gamma |-> N("gamma", 2, "0.7")]
Own == [b \in 1..Size |-> b]
A == TLCEval(Health(Own))
One1(m, b) == <<m[((b - 1) % Len(m)) + 1]>>
(* The description of one member *)
Alone1(a, b) ==
    LET T(f) == [f EXCEPT !.v = One1(@, b)]
        O(f) == [f EXCEPT !.v = One1(@, b), !.g = One1(@, b)] IN
    [qt |-> One1(a.qt, b), ce |-> One1(a.ce, b), ocv |-> T(a.ocv), ent |-> T(a.ent), tref |-> One1(a.tref, b), r0 |-> O(a.r0), c0 |-> <<T(a.c0[1])>>,
     rc |-> <<[r |-> O(a.rc[1].r), c |-> T(a.rc[1].c)]>>, h0 |-> T(a.h0), gamma |-> One1(a.gamma, b)]
In(t, i) == [t |-> R(t), i |-> R(i - 5), temp |-> <<30>>]
Begin(b) ==
    LET S(q, v, w) == IF q \in mine THEN RAdd(v, RMul(w, b)) ELSE R(v) IN
    [soc |-> S("soc", "0.3", "0.1"), q0 |-> <<S("q0", 0, 10)>>, irc |-> <<S("irc", 0, 1)>>, hyst |-> S("hyst", 0, "0.01")]
MCInit ==
    /\ mode \in {"constant", "linear"} /\ mine \in {s \in SUBSET Quantities : Cardinality(s) <= Most \/ s = Quantities}
    /\ xs = [b \in 1..Size |-> Begin(b)] /\ (\E i \in Currents : p = In(0, i) /\ hist = <<i>>) /\ n = 0
(* A batch in which the number of rows is taken from one quantity and used for all would confuse the members *)
Which(b) == IF Defect /\ "qt" \notin mine THEN 1 ELSE b
Do(i) ==
    LET u == In(RMul(200, n + 1), i) IN
    /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<mode, mine>>
    /\ xs' = [b \in 1..Size |-> Step(mode, A, Which(b), xs[b], p, u)]
    /\ p' = u /\ hist' = Append(hist, i)
MCNext == \E i \in Currents : Do(i)
MCSpec == MCInit /\ [][MCNext]_<<mode, mine, xs, p, n, hist>>
Near(v, w) == RLe(RAbs(RSub(v, w)), "1e-25")
SameState(y, z) == Near(y.soc, z.soc) /\ Near(y.q0[1], z.q0[1]) /\ Near(y.hyst, z.hyst) /\ Near(y.irc[1], z.irc[1])
(* Each member of the batch does what it does alone, at every step *)
Independent == [][\A b \in 1..Size :
    LET c == Alone1(A, b) y == Step(mode, c, 1, xs[b], p, p') IN
    /\ SameState(xs'[b], y)
    /\ Near(Volts(A, b, xs'[b], p'), Volts(c, 1, y, p'))]_n
(* Members which share everything stay equal for ever *)
Shared == mine = {} => \A b \in 1..Size : SameState(xs[b], xs[1])
(* Another last member changes nothing for the first *)
Apart == [][LET other == Health([Own EXCEPT ![Size] = 7]) IN
    "ce" \in mine => SameState(Step(mode, [A EXCEPT !.ce = other.ce, !.qt = IF "qt" \in mine THEN other.qt ELSE A.qt], 1, xs[1], p, p'), xs'[1])]_n
Emit == (Gen /\ n = Depth) => PrintT("HIST " \o ToJson([mode |-> mode, mine |-> mine, steps |-> hist, size |-> Size]))
=============================================================================
