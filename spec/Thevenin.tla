------------------------------ MODULE Thevenin ------------------------------
(* The adapter to an external solver of circuits.  For every member of a     *)
(* batch it hands a description, a state, a load and a duration over to the  *)
(* solver, and stores the solution in the same member.                       *)
(*                                                                           *)
(* A batch is [B, cap, mass, cp, h, area, ocv, r, c, iso, x]: parameters are *)
(* sequences of one row for all members or one per member; ocv = polynomial  *)
(* coefficients, r (one more than c) and c = sequences of [s, t, ref]        *)
(* (coefficients in charge, in temperature, reference); x = [soc, temp, eta].*)
(* An input is [t, i, amb], each with rows as above.                         *)
(* The solver is replaced by an arbitrary function of everything that is     *)
(* handed over (Solved).                                                     *)
EXTENDS Mat, Check
LOCAL INSTANCE TLC
VARIABLES ths      \* batches under way: [c: description, p: previous input]

Pick(m, b) == m[((b - 1) % Len(m)) + 1]
RECURSIVE PolyFrom(_, _, _)
PolyFrom(cs, k, x) == IF k > Len(cs) THEN R(0) ELSE RAdd(cs[k], RMul(x, PolyFrom(cs, k + 1, x)))
Poly(cs, x) == PolyFrom(cs, 1, x)
Res(f, b, soc, temp) == RAdd(Poly(Pick(f.s, b), soc), Poly(Pick(f.t, b), RSub(temp, Pick(f.ref, b)[1])))
Ocv(c, b, soc) == Poly(Pick(c.ocv, b), soc)

(* What is handed over for member b: its numbers, its functions (here: the member whose functions they are) and the load *)
Handed(c, b, p, u) ==
    [soc |-> Pick(c.x.soc, b)[1], eta |-> Pick(c.x.eta, b), cap |-> Pick(c.cap, b)[1], mass |-> Pick(c.mass, b)[1], cp |-> Pick(c.cp, b)[1],
     h |-> Pick(c.h, b)[1], area |-> Pick(c.area, b)[1], amb |-> Pick(u.amb, b)[1], iso |-> c.iso, member |-> b,
     load |-> RNeg(Pick(u.i, b)[1]), dt |-> RSub(Pick(u.t, b)[1], Pick(p.t, b)[1])]
Solved(c, g) ==
    LET soc1 == TLCEval(RSub(g.soc, RDiv(RMul(g.load, g.dt), RMul(3600, g.cap))))
        T1 == RAdd(g.amb, 10) IN
    [soc |-> soc1,
     temp |-> RSum(<<g.amb, RMul("0.01", g.mass), RMul("1e-4", g.cp), RMul("0.1", g.h), RMul("0.2", g.area), Ocv(c, g.member, g.soc), RMul(2, Ocv(c, g.member, soc1)),
                     RMul(3, Res(c.r[1], g.member, g.soc, g.amb)), RMul(5, Res(c.r[1], g.member, soc1, T1)), IF g.iso THEN 7 ELSE 0>>),
     eta |-> [j \in 1..Len(c.c) |-> RSum(<<RMul("0.5", g.eta[j]), RMul(g.load, Res(c.r[j + 1], g.member, g.soc, RAdd(g.amb, 5))),
                                            RMul(RMul("1e-3", g.dt), Res(c.c[j], g.member, soc1, g.amb))>>)]]
StepOf(c, p, u) ==
    LET ys == TLCEval([b \in 1..c.B |-> Solved(c, Handed(c, b, p, u))]) IN
    [soc |-> [b \in 1..c.B |-> <<ys[b].soc>>], temp |-> [b \in 1..c.B |-> <<ys[b].temp>>], eta |-> [b \in 1..c.B |-> ys[b].eta]]
VoltOf(c, b, u) ==
    LET soc == Pick(c.x.soc, b)[1] IN
    RSum(<<Ocv(c, b, soc), RMul(Pick(u.i, b)[1], Res(c.r[1], b, soc, Pick(c.x.temp, b)[1])), RNeg(RSum(Pick(c.x.eta, b)))>>)

Init == ths = <<>>
Begin(c, p) == ths' = Append(ths, [c |-> c, p |-> p])
Step(i, u) == ths' = [ths EXCEPT ![i] = [c |-> [ths[i].c EXCEPT !.x = StepOf(ths[i].c, ths[i].p, u)], p |-> u]]
Looked == UNCHANGED ths
=============================================================================
