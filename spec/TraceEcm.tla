------------------------------ MODULE TraceEcm ------------------------------
(* Replays evaluations of the real circuit model, for every member of a      *)
(* batch.  After each step the state is taken over from the observation, so  *)
(* that every step is judged on its own.                                     *)
EXTENDS Ecm, TraceLib, Num
VARIABLES c    \* the cell: [mode, a, B, x, p] with the state x as columns (one row per member, or one for all)

Nothing == [mode |-> "constant", B |-> 0]
Member(x, b) == [soc |-> One(x.soc, b), q0 |-> IF x.q0 = <<>> THEN <<>> ELSE <<One(x.q0, b)>>, irc |-> Pick(x.irc, b), hyst |-> One(x.hyst, b)]
IsCol(m, B) == IsSeq(m) /\ Len(m) \in {1, B} /\ \A i \in 1..Len(m) : IsSeq(m[i]) /\ Len(m[i]) = 1
IsMat(m, B, w) == IsSeq(m) /\ Len(m) \in {1, B} /\ \A i \in 1..Len(m) : IsSeq(m[i]) /\ Len(m[i]) = w
WellShaped(o, old, B) == IsCol(o.soc, B) /\ IsCol(o.hyst, B) /\ IsMat(o.irc, B, Len(old.irc[1])) /\ IF old.q0 = <<>> THEN o.q0 = <<>> ELSE IsCol(o.q0, B)

Act(e) ==
    CASE e.ev = "cell" -> c' = [mode |-> e.mode, a |-> e.a, B |-> e.B, x |-> e.x, p |-> e.p]
      [] e.ev = "step" -> c' = [c EXCEPT !.x = IF WellShaped(e.o, c.x, c.B) THEN e.o ELSE @, !.p = e.u]
      [] e.ev = "state" -> c' = [c EXCEPT !.x = e.x, !.p = e.p]
      [] OTHER -> c' = c

Watch(e, k) == \E i \in 1..Len(e.watch) : e.watch[i] = k
CheckStep(e) ==
    IF ~WellShaped(e.o, c.x, c.B) THEN Mis("shape of the new state", c.x, e.o)
    ELSE Flat([b \in 1..c.B |->
        LET x == Member(c.x, b)
            o == Member(e.o, b)
            m == " of member " \o ToString(b) IN
        (IF Watch(e, "charge") THEN CNum("state of charge" \o m, NewSoc(c.mode, c.a, b, x, c.p, e.u), o.soc, "1e-10", 1)
            \o (IF x.q0 = <<>> THEN OK ELSE CNum("charge of the capacitor" \o m, NewQ0(c.mode, x, c.p, e.u)[1], o.q0[1], "1e-10", 1)) ELSE OK)
        \o (IF Watch(e, "relax") THEN CNest("RC currents" \o m, NewIrc(c.mode, c.a, b, x, c.p, e.u), o.irc, "1e-8", 1)
            \o CNum("hysteresis" \o m, NewHyst(c.mode, c.a, b, x, c.p, e.u), o.hyst, "1e-8", "0.01") ELSE OK)])
VoltsOf(x, u, v) ==
    IF ~IsCol(v, c.B) THEN Mis("shape of the voltage", c.B, v)
    ELSE Flat([b \in 1..c.B |-> CNum("terminal voltage of member " \o ToString(b), Volts(c.a, b, Member(x, b), u), One(v, b), "1e-9", 1)])

(* got[m][s][d]: member m of the parameters at state of charge [s][d] *)
Cube(f(_, _), rows, socs) == TLCEval([m \in 1..rows |-> [s \in 1..Len(socs) |-> [d \in 1..Len(socs[s]) |-> f(m, socs[s][d])]]])
Rows(f) == Len(f.v)
Max3(a, b, d) == IF a >= b /\ a >= d THEN a ELSE IF b >= d THEN b ELSE d
CheckValue(e) ==
    LET f == e.f IN
    CASE e.kind = "table" -> LET ts == TLCEval([m \in 1..Rows(f) |-> Tab(f, m)]) IN
            CNest("interpolated " \o f.style, Cube(LAMBDA m, s : Value(ts[m], s), Rows(f), e.socs), e.got, "1e-8", 1)
      [] e.kind = "ohm" -> LET n == Max3(Rows(f), IF e.temp = <<>> THEN 1 ELSE Len(f.g), 1)
                               ts == TLCEval([m \in 1..Rows(f) |-> Tab(f, m)]) IN
            CNest("resistance", Cube(LAMBDA m, s : RMul(Value(Pick(ts, m), s), Heat(f, m, e.temp)), n, e.socs), e.got, "1e-8", "0.01")
      [] e.kind = "ocv" -> LET n == IF e.temp = <<>> THEN Rows(f.ocv) ELSE Max3(Rows(f.ocv), Rows(f.ent), Len(f.tref))
                               ts == TLCEval([m \in 1..Rows(f.ocv) |-> Tab(f.ocv, m)])
                               es == TLCEval([m \in 1..Rows(f.ent) |-> Tab(f.ent, m)]) IN
            CNest("open-circuit voltage", Cube(LAMBDA m, s : IF e.temp = <<>> THEN Value(Pick(ts, m), s)
                     ELSE RAdd(Value(Pick(ts, m), s), RMul(RSub(e.temp[1], One(f.tref, m)), Value(Pick(es, m), s))), n, e.socs), e.got, "1e-8", 1)
      [] e.kind = "tau" -> CNest("time constant", Cube(LAMBDA m, s : Tau(f, m, s, e.temp), e.rows, e.socs), e.got, "1e-8", 1)
      [] e.kind = "capacity" -> CNest("capacity in A s", [m \in 1..Len(f) |-> <<RMul(3600, f[m][1])>>], e.got, "1e-12", 1)
CheckEnergy(e) ==
    IF ~IsCol(e.got, c.B) THEN Mis("shape of the energy", c.B, e.got)
    ELSE Flat([b \in 1..c.B |-> CNum("energy of member " \o ToString(b), Energy(c.a, b, e.lo, e.hi, e.temp, 99), One(e.got, b), "1e-4", "0.01")])

Check(e) ==
    CASE e.ev = "crash" -> Mis("unexpected exception", "", e.what)
      [] e.ev = "step" -> CheckStep(e) \o (IF Watch(e, "volts") THEN VoltsOf(c'.x, e.u, e.v) ELSE OK)
      [] e.ev = "volts" -> VoltsOf(e.x, e.u, e.v)
      [] e.ev = "value" -> CheckValue(e)
      [] e.ev = "energy" -> CheckEnergy(e)
      [] OTHER -> OK
TInit == c = Nothing /\ LibInit
TNext == More /\ Act(Line) /\ Report(Check(Line))
TSpec == TInit /\ [][TNext]_<<c, l, nbad>>
=============================================================================
