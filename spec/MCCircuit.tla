------------------------------ MODULE MCCircuit ------------------------------
(* Estimators of the circuit in different coordinates, run side by side.      *)
(* Its model is not linear: hidden variables can be scaled and shifted one by *)
(* one, controls and outputs can undergo any affine conversion.               *)
EXTENDS Estimator, TLC
CONSTANTS Depth, Modes
VARIABLES n
Id == [op |-> "identity"]
L(m, b) == [op |-> "linear", m |-> m, b |-> b]
Ops(h, u, y) == [h |-> h, u |-> u, y |-> y]
Tb(v) == [v |-> v, pin |-> <<>>, style |-> "linear"]
Res(v) == [v |-> v, pin |-> <<>>, style |-> "linear", g |-> <<<<"0.002">>>>, tref |-> 25]
Names == <<"q_t.base_values", "ce", "ocv.ocv_ref.base_values", "r0.base_values", "h0.gamma", "rc_elements.0.c.base_values", "rc_elements.0.r.base_values">>
Base == [qt |-> <<<<1>>>>, ce |-> <<<<"0.9">>>>, ocv |-> Tb(<<<<3, "3.4", 4>>>>), ent |-> Tb(<<<<"0.001">>>>), tref |-> <<<<25>>>>,
         r0 |-> Res(<<<<"0.1", "0.08">>>>), c0 |-> <<Tb(<<<<10000>>>>)>>, gamma |-> <<<<2>>>>,
         rc |-> <<[r |-> Res(<<<<"0.05", "0.02">>>>), c |-> Tb(<<<<1000>>>>)]>>, h0 |-> Tb(<<<<"0.05", "0.02">>>>)]
Lay(mode) == [cell |-> "circuit", q |-> 1, nw |-> 1, nT |-> 1, ne |-> 0, mode |-> mode, all |-> Names]
Tun == [al |-> "1", be |-> "2", ka |-> "0"]
Sizes(k) == SubSeq(<<"0.05", "20", "0.1", "0.02", "0.03", "0.01", "0.1">>, 1, k)      \* soc, charge, branch, hysteresis, resistances, capacity
CovOf(z, f) == Mtx(Len(z), Len(z), LAMBDA i, j : RMul(f, IF i = j THEN RMul(z[i], z[i]) ELSE RMul("0.2", RMul(z[i], z[j]))))
Sel == <<"r0.base_values", "q_t.base_values">>
Hs == <<"0.03", "0.01", "0.1">>
X0 == <<"0.5", "10", "0.4", "0.01">>
U0 == <<0, "1", 25>>
Joint(mode, o) == LET z == Sizes(4) \o Hs IN
    [kind |-> "joint", lay |-> Lay(mode), base |-> Base, sel |-> Sel, deg |-> "full", mag |-> <<1, 1, 1, 1>>, x |-> X0, u |-> U0,
     P |-> CovOf(z, "1"), Q |-> CovOf(z, "0.01"), R |-> <<<<"0.001">>>>, tun |-> Tun, o |-> o]
Dual(mode, o, og) ==
    [kind |-> "dual", lay |-> Lay(mode), base |-> Base, sel |-> Sel, deg |-> "full", mag |-> <<1, 1, 1, 1>>, x |-> X0, u |-> U0,
     P |-> CovOf(Sizes(4), "1"), Ph |-> CovOf(Hs, "1"), Q |-> CovOf(Sizes(4), "0.01"), Qh |-> CovOf(Hs, "0.01"), R |-> <<<<"0.001">>>>, tun |-> Tun, tunh |-> Tun, o |-> o, og |-> og]
Phys == Ops(Id, Id, Id)
H7 == L(DiagM(<<"2", "-0.5", "3", "0.9", "0.1", "-4", "10">>), <<"0.1", "-1", "2", "0", "0", "0.3", "-0.5">>)
H4 == L(DiagM(<<"-2", "100", "0.5", "0.1">>), <<"0.5", "0", "1", "-0.02">>)
H3 == L(DiagM(<<"0.1", "0.02", "-5">>), <<"0", "0.1", "1">>)
U3 == L(<<<<"0.5", "1", "0">>, <<"-1", "2", "0.5">>, <<"0", "3", "10">>>>, <<"1", "0", "20">>)
Y1 == L("-0.25", <<"3.7">>)
Given == <<Joint("constant", Phys), Joint("constant", Ops(H7, U3, Y1)), Dual("constant", Phys, Phys), Dual("constant", Ops(H4, Id, Y1), Ops(Id, U3, Id)), Dual("constant", Ops(Id, U3, Id), Ops(H3, Id, Y1))>>
Chosen(mode) == [i \in 1..Len(Given) |-> [Given[i] EXCEPT !.lay = Lay(mode)]]
PhysOf(i) == IF i < 3 THEN 1 ELSE 3
MCInit == n = 0 /\ \E mode \in Modes : es = TLCEval([i \in 1..Len(Given) |-> Made(Chosen(mode)[i])])
Us == {<<"0", "1", "30">>, <<"40", "-1.5", "20">>, <<"60", "2", "25">>}     \* none of them at rest: see DESIGN.md
Ys == {<<"3.4">>, <<"3.9">>}
MCNext == /\ n < Depth /\ n' = n + 1
          /\ \E u \in Us, y \in Ys : LET t == RAdd(G!Fwd(es[1].o.u, es[1].f.u)[1], u[1]) IN
             es' = TLCEval([i \in 1..Len(es) |-> After(es[i], <<t, u[2], u[3]>>, y).e])
Tol == "1e-18"
SameInAllCoordinates == \A i \in 1..Len(es) : LET a == StateOf(es[i]) b == StateOf(es[PhysOf(i)]) IN
    /\ SameNest(b.mean, a.mean, Tol, 1) /\ SameNest(b.cov, a.cov, Tol, 1)
UnselectedStay == \A i \in 1..Len(es), j \in 1..Len(Names) : (\A k \in 1..Len(Sel) : Sel[k] # Names[j]) =>
    Ci!GetOne(HOf(es[i]), Names[j]) = Ci!GetOne(Base, Names[j])
NoCross == \A i \in 3..Len(es) : LET c == StateOf(es[i]).cov IN \A p, q \in 1..Len(c) : (p <= 4) # (q <= 4) => REq(c[p][q], 0)
NamesMatch == \A i \in 1..Len(es) : Len(StateNames(es[i])) = Len(StateOf(es[i]).mean) /\ Len(StateNames(es[i])) = 7
VectorsAndObjects == \A i \in 1..Len(es) : GetSel(es[i].lay, HOf(es[i]), es[i].sel) = SubSeq(StateOf(es[i]).mean, 5, 7)
Certain == \A i \in 1..Len(es) : LET c == StateOf(es[i]).cov IN \A p \in 1..Len(c) : RLt(0, c[p][p])
MCSpec == MCInit /\ [][MCNext]_<<es, n>>
=============================================================================
