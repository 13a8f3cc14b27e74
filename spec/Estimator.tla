----------------------------- MODULE Estimator -----------------------------
(* Online estimators of a cell: joint (one filter for state and health) and  *)
(* dual (two filters which exchange their estimates) of a cell of Cells.tla. *)
(* An estimator is [kind, lay, base, sel, deg, f, g, o, og, x0]: health as   *)
(* given, selected parameters, degradation, filter (of the state for dual    *)
(* estimation) and second filter (of health), and their conversions          *)
(* [h, u, y] to physical units, state and inputs given.                      *)
EXTENDS Cells
LOCAL INSTANCE TLC
U == INSTANCE Ukf WITH fs <- <<>>
G == INSTANCE Gauss WITH ds <- <<>>
VARIABLES es

(* What each filter takes for its model, in physical units *)
JEvolve(e, r, u0, u1) ==
    LET n == Dimx(e.lay)
        x == SubSeq(r, 1, n)
        h == PutSel(e.lay, e.base, e.sel, SubSeq(r, n + 1, Len(r))) IN
    Evolve(e.lay, h, x, u0, u1) \o GetSel(e.lay, Degrade(e.deg, e.lay, h, u0, x, Volt(e.lay, h, x, u0)), e.sel)
JPredict(e, r, u) ==
    LET n == Dimx(e.lay) IN Output(e.lay, PutSel(e.lay, e.base, e.sel, SubSeq(r, n + 1, Len(r))), SubSeq(r, 1, n), u)
(* state for given health h *)
XEvolve(e, h, r, u0, u1) == Evolve(e.lay, h, r, u0, u1)
XPredict(e, h, r, u) == Output(e.lay, h, r, u)
(* health for a given state x *)
HEvolve(e, x, r, u1) == LET h == PutSel(e.lay, e.base, e.sel, r) IN GetSel(e.lay, Degrade(e.deg, e.lay, h, u1, x, Volt(e.lay, h, x, u1)), e.sel)
HPredict(e, x, r, u0, u1) == LET h == PutSel(e.lay, e.base, e.sel, r) IN Output(e.lay, h, Evolve(e.lay, h, x, u0, u1), u1)

(* A filter in its own coordinates, from quantities in physical units.  Noise which is not given is 1e-8 in coordinates *)
Noise(n) == MScale("1e-8", Eye(n))
Zeros(n) == [i \in 1..n |-> 0]
Filter(x, P, u, Q, Rn, tun, o, no) ==
    [x |-> G!Back(o.h, x), P |-> G!BackCov(o.h, P, x), u |-> G!Back(o.u, u),
     Q |-> IF Q = <<>> THEN Noise(Len(x)) ELSE G!BackCov(o.h, Q, Zeros(Len(x))),
     R |-> IF Rn = <<>> THEN Noise(no) ELSE G!BackCov(o.y, Rn, Zeros(no)), al |-> tun.al, be |-> tun.be, ka |-> tun.ka]
Physical(f, o) == [mean |-> G!Fwd(o.h, f.x), cov |-> G!FwdCov(o.h, f.P, f.x)]
(* One step of a filter whose model in physical units is Ev, Pr *)
Stepped(f, o, u1, y, pts, Ev(_, _, _), Pr(_, _, _)) ==
    LET u0p == G!Fwd(o.u, f.u)
        u1f == G!Back(o.u, u1)
        u1p == G!Fwd(o.u, u1f)
        a == U!UpdateWith(f, pts, LAMBDA x : G!Back(o.h, Ev(G!Fwd(o.h, x), u0p, u1p)), LAMBDA x : G!Back(o.y, Pr(G!Fwd(o.h, x), u0p, u1p)), G!Back(o.y, y)) IN
    TLCEval([f |-> [f EXCEPT !.x = a.x, !.P = a.P, !.u = u1f], y |-> G!Fwd(o.y, a.y), Py |-> G!FwdCov(o.y, a.Py, a.y)])

StateOf(e) == IF e.kind = "joint" THEN Physical(e.f, e.o)
              ELSE LET a == Physical(e.f, e.o) b == Physical(e.g, e.og) IN [mean |-> a.mean \o b.mean, cov |-> Block2(a.cov, b.cov)]
XOf(e) == SubSeq(StateOf(e).mean, 1, Dimx(e.lay))
HOf(e) == LET m == StateOf(e).mean IN PutSel(e.lay, e.base, e.sel, SubSeq(m, Dimx(e.lay) + 1, Len(m)))
(* pf, pg: the points of the filters *)
AfterFrom(e, u1, y, pf, pg) ==
    IF e.kind = "joint"
    THEN LET r == Stepped(e.f, e.o, u1, y, pf, LAMBDA x, v0, v1 : JEvolve(e, x, v0, v1), LAMBDA x, v0, v1 : JPredict(e, x, v1)) IN
         [e |-> [e EXCEPT !.f = r.f], y |-> r.y, Py |-> r.Py]
    ELSE LET h == HOf(e)
             x == XOf(e)
             r == Stepped(e.f, e.o, u1, y, pf, LAMBDA z, v0, v1 : XEvolve(e, h, z, v0, v1), LAMBDA z, v0, v1 : XPredict(e, h, z, v1))
             q == Stepped(e.g, e.og, u1, y, pg, LAMBDA z, v0, v1 : HEvolve(e, x, z, v1), LAMBDA z, v0, v1 : HPredict(e, x, z, v0, v1)) IN
         [e |-> [e EXCEPT !.f = r.f, !.g = q.f], y |-> r.y, Py |-> r.Py]

After(e, u1, y) == AfterFrom(e, u1, y, U!Points(e.f), IF e.kind = "joint" THEN <<>> ELSE U!Points(e.g))

StateNames(e) == StateNamesOf(e.lay) \o SelNames(e.lay, e.base, e.sel)
OutputNames(e) == OutputNamesOf(e.lay)
ControlNames(e) == ControlNamesOf(e.lay)

---------------------------------------------------------------------------
Init == es = <<>>
(* d: what the caller gives, in physical units *)
Made(d) ==
    LET h0 == GetSel(d.lay, d.base, d.sel)
        no == 1 + d.lay.ne IN
    IF d.kind = "joint"
    THEN [kind |-> "joint", lay |-> d.lay, base |-> d.base, sel |-> d.sel, deg |-> d.deg, mag |-> d.mag, o |-> d.o, og |-> d.o,
          f |-> Filter(d.x \o h0, d.P, d.u, d.Q, d.R, d.tun, d.o, no), g |-> <<>>]
    ELSE [kind |-> "dual", lay |-> d.lay, base |-> d.base, sel |-> d.sel, deg |-> d.deg, mag |-> d.mag, o |-> d.o, og |-> d.og,
          f |-> Filter(d.x, d.P, d.u, d.Q, d.R, d.tun, d.o, no), g |-> Filter(h0, d.Ph, d.u, d.Qh, d.R, d.tunh, d.og, no)]
New(d) == es' = Append(es, TLCEval(Made(d)))
CallerWrites == UNCHANGED es
=============================================================================
