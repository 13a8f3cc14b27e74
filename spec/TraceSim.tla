------------------------------ MODULE TraceSim ------------------------------
EXTENDS Simulator, TraceLib
Act(e) ==
    CASE e.ev = "new" -> New(e.p, e.x, e.u, e.ne, e.kind, e.keep)
      [] e.ev = "step" -> Step(e.i, e.u)
      [] e.ev = "evolve" -> Evolve(e.i, e.us)
      [] e.ev = "given" -> sims' = Append(sims, e.sim)      \* a history which was recorded by a real circuit
      [] e.ev = "reset" -> sims' = <<>>
      [] OTHER -> CallerWrites
Vals(c) == [k \in 1..Len(c) |-> c[k].v]
CheckSim(S, o) ==
    CNestX("health", S.p, o.p) \o CNestX("state", Vals(S.x), o.x) \o CNestX("previous inputs", Vals(S.u), o.u) \o CNestX("measurement", Vals(S.m), o.m)
    \o (IF ~S.keep THEN CTrue("no history is kept", o.none)
        ELSE CNestX("history of health", S.hp, o.hp) \o CNestX("history of states", [k \in 1..Len(S.hx) |-> Vals(S.hx[k])], o.hx)
          \o CNestX("history of inputs", [k \in 1..Len(S.hu) |-> Vals(S.hu[k])], o.hu)
          \o CNestX("history of measurements", [k \in 1..Len(S.hm) |-> Vals(S.hm[k])], o.hm))
Find(cols, name) == IF \E i \in 1..Len(cols) : cols[i] = name THEN CHOOSE i \in 1..Len(cols) : cols[i] = name ELSE 0
Unique(cols) == \A i, j \in 1..Len(cols) : cols[i] = cols[j] => i = j
CheckData(S, e) ==
    IF Len(e.sets) # BatchSize(S) THEN Mis("number of datasets", BatchSize(S), Len(e.sets))
    ELSE Flat([b \in 1..Len(e.sets) |->
        LET d == e.sets[b]
            want == DataColumns(S)
            rows == Dataset(S, b) IN
        (IF e.extra /\ \E c \in 1..Len(d.cols) : Find(d.known, d.cols[c]) = 0 THEN Mis("described columns", d.cols, d.known) ELSE OK) \o
        IF Len(d.rows) # Len(rows) THEN Mis("rows of a dataset", Len(rows), Len(d.rows))
        ELSE Flat([c \in 1..Len(want) |->
            LET at == Find(d.cols, want[c]) IN
            IF at = 0 THEN (IF e.extra \/ want[c] \in {"test_time", "current", "voltage", "temperature"} THEN Mis("column of a dataset", want[c], d.cols) ELSE OK)
            ELSE CNestX("column " \o want[c] \o " of a dataset", [k \in 1..Len(rows) |-> rows[k][c]], [k \in 1..Len(rows) |-> d.rows[k][at]])])])
Check(e) ==
    IF e.ev = "crash" THEN Mis("unexpected exception", "", e.what)
    ELSE (IF Has(e, "sims") THEN
            IF Len(e.sims) # Len(sims') THEN Mis("number of simulators", Len(sims'), Len(e.sims))
            ELSE Flat([i \in 1..Len(sims') |-> CheckSim(sims'[i], e.sims[i])]) ELSE OK)
      \o (IF e.ev = "step" THEN CNestX("returned state", Vals(sims'[e.i].x), e.rx) \o CNestX("returned measurement", Vals(sims'[e.i].m), e.rm) ELSE OK)
      \o (IF e.ev = "evolve" THEN CNestX("returned measurements", [k \in 1..Len(e.us) |-> Vals(AfterAll(sims[e.i], SubSeq(e.us, 1, k)).m)], e.rms) ELSE OK)
      \o (IF e.ev = "table" THEN
            IF ~sims[e.i].keep THEN CTrue("table without history is refused", e.err # "")
            ELSE CEq("columns", Columns(sims[e.i]), e.cols) \o CNestX("table", Table(sims[e.i]), e.rows) ELSE OK)
      \o (IF e.ev = "data" THEN CheckData(sims[e.i], e) ELSE OK)
TInit == Init /\ LibInit
TNext == More /\ Act(Line) /\ Report(Check(Line))
TSpec == TInit /\ [][TNext]_<<sims, l, nbad>>
=============================================================================
