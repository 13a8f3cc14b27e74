------------------------------- MODULE MCEst -------------------------------
(* Estimators in different coordinates run side by side; the first one of    *)
(* each kind runs in physical units.                                         *)
EXTENDS Estimator, TLC
CONSTANTS Depth
VARIABLES n
Id == [op |-> "identity"]
L(m, b) == [op |-> "linear", m |-> m, b |-> b]
Ops(h, u, y) == [h |-> h, u |-> u, y |-> y]
Lay == [cell |-> "toy", q |-> 0, nw |-> 1, nT |-> 0, ne |-> 1]
Base == [a |-> "1.2", v |-> <<"0.8">>, b |-> "0.9", z |-> "0.3"]
Tun == [al |-> "1", be |-> "2", ka |-> "0"]
SpdOf(k) == Mtx(k, k, LAMBDA i, j : IF i = j THEN "0.3" ELSE "0.05")
Noi(k) == Mtx(k, k, LAMBDA i, j : IF i = j THEN "0.1" ELSE "0.02")
Joint(o) == [kind |-> "joint", lay |-> Lay, base |-> Base, sel |-> <<"sub.b", "a">>, deg |-> "full", mag |-> <<1, 1, 1, 1>>, x |-> <<"0.5", "-0.2">>, u |-> <<"0", "1">>,
             P |-> SpdOf(4), Q |-> Noi(4), R |-> Noi(2), tun |-> Tun, o |-> o]
Dual(o, og) == [kind |-> "dual", lay |-> Lay, base |-> Base, sel |-> <<"sub.b", "a">>, deg |-> "full", mag |-> <<1, 1, 1, 1>>, x |-> <<"0.5", "-0.2">>, u |-> <<"0", "1">>,
             P |-> SpdOf(2), Ph |-> SpdOf(2), Q |-> Noi(2), Qh |-> Noi(2), R |-> Noi(2), tun |-> Tun, tunh |-> Tun, o |-> o, og |-> og]
Phys == Ops(Id, Id, Id)
H4 == DiagM(<<"2", "-0.5", "3", "0.9">>)
T4 == <<<<"2", "0.3", "0", "1">>, <<"0", "-0.5", "0.7", "0">>, <<"0", "0", "3", "0.2">>, <<"0", "0", "0", "0.9">>>>   \* its transpose is lower triangular
U2 == <<<<"0.5", "1">>, <<"-1", "2">>>>
Y2 == <<<<"1", "0.4">>, <<"-0.6", "2">>>>
H2 == DiagM(<<"-2", "0.5">>)
Given == <<Joint(Phys), Joint(Ops(L(H4, <<"0.1", "-1", "2", "0">>), Id, Id)), Joint(Ops(L(T4, <<"0", "1", "0", "0.5">>), L(U2, <<"1", "0">>), Id)),
           Joint(Ops(Id, L("0.25", <<"1">>), L(Y2, <<"0.5", "-1">>))), Dual(Phys, Phys),
           Dual(Ops(L(H2, <<"0.1", "-1">>), L(U2, <<"1", "0">>), Id), Phys), Dual(Phys, Ops(L(H2, <<"1", "-1">>), Id, L(Y2, <<"0">>)))>>
PhysOf(i) == IF i < 5 THEN 1 ELSE 5
MCInit == es = TLCEval([i \in 1..Len(Given) |-> Made(Given[i])]) /\ n = 0
Us == {<<"1", "0.5">>, <<"1", "-1.5">>}
Ys == {<<"3.8", "0.9">>, <<"4.5", "1.5">>}
MCNext == /\ n < Depth /\ n' = n + 1
          /\ \E u \in Us, y \in Ys : LET u1 == <<RAdd(n, u[1]), u[2]>> IN es' = TLCEval([i \in 1..Len(es) |-> After(es[i], u1, y).e])
Tol == "1e-15"
SameInAllCoordinates == \A i \in 1..Len(es) : LET a == StateOf(es[i]) b == StateOf(es[PhysOf(i)]) IN
    /\ SameNest(b.mean, a.mean, Tol, 1) /\ SameNest(b.cov, a.cov, Tol, 1)
UnselectedStay == \A i \in 1..Len(es) : HOf(es[i]).v = Base.v /\ HOf(es[i]).z = Base.z
NoCross == \A i \in 5..Len(es) : LET c == StateOf(es[i]).cov IN \A p, q \in 1..Len(c) : (p <= 2) # (q <= 2) => REq(c[p][q], 0)
NamesMatch == \A i \in 1..Len(es) : Len(StateNames(es[i])) = Len(StateOf(es[i]).mean)
VectorsAndObjects == \A i \in 1..Len(es) : GetSel(es[i].lay, HOf(es[i]), es[i].sel) = SubSeq(StateOf(es[i]).mean, 3, 4)
MCSpec == MCInit /\ [][MCNext]_<<es, n>>
=============================================================================
