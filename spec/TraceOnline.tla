----------------------------- MODULE TraceOnline -----------------------------
EXTENDS Online, TraceLib
ManyNames(nm, k) == IF k = 1 THEN <<nm>> ELSE [i \in 1..k |-> nm \o "[" \o ToString(i - 1) \o "]"]
NamesFrom(fs) == Flat([i \in 1..Len(fs) |-> IF fs[i].n = 0 THEN <<>> ELSE ManyNames(fs[i].k, fs[i].n)])

(* Running the driver: the estimator sees the first `stop` rows; the store is opened, prepared, filled and closed *)
Ran(S, w, e, rows, streamed, meta) ==
    LET o == Opened(S, w)
        n == Len(rows.all)
        c == CyclesExpected(rows.all, streamed) IN
    IF PrepareRefusedIn(o, w, n, c) THEN Closed(o, w)
    ELSE Closed(AppendedAll(Prepared(o, w, n, c, meta), w, EntriesOf(e, rows.seen)), w)
RunRefused(S, w, rows, streamed) == PrepareRefusedIn(Opened(S, w), w, Len(rows.all), CyclesExpected(rows.all, streamed))
Processed(e) == IF e.w # 0 /\ RunRefused(st, e.w, [all |-> e.rows], e.streamed) THEN <<>> ELSE SubSeq(e.rows, 1, e.stop)
Act(e) ==
    CASE e.ev = "reset" -> st' = Empty /\ ests' = <<>>
      [] e.ev = "create" -> Create(e.file, e.key, e.o) /\ UNCHANGED ests
      [] e.ev = "open" -> Open(e.w) /\ UNCHANGED ests
      [] e.ev = "close" -> Close(e.w) /\ UNCHANGED ests
      [] e.ev = "prepare" -> Prepare(e.w, e.steps, e.cycles, e.meta) /\ UNCHANGED ests
      [] e.ev = "append" -> (IF e.o1 = 0 THEN AppendStep(e.w, e.e) ELSE st' = AppendedAll(st, e.w, e.e)) /\ UNCHANGED ests
      [] e.ev = "est" -> NewEst(e.x, e.no)
      [] e.ev = "hand" -> Row(e.i, e.row)
      [] e.ev = "run" -> /\ ests' = [ests EXCEPT ![e.i] = AfterRows(@, Processed(e))]
                         /\ st' = IF e.w = 0 THEN st ELSE Ran(st, e.w, ests[e.i], [all |-> e.rows, seen |-> Processed(e)], e.streamed, e.meta)
      [] OTHER -> UNCHANGED <<st, ests>>
CDist(clause, d, o) ==
    CEq(clause \o ": kind", d.kind, o.kind) \o CNestX(clause \o ": mean", d.mean, o.mean)
    \o (IF d.kind = "Delta" THEN OK ELSE CNestX(clause \o ": covariance", d.cov, o.cov))
CheckRead(e) ==
    LET gi == At(st, e.file, e.key) IN
    IF gi = 0 THEN CTrue("reading what does not exist is refused", e.err # "")
    ELSE IF ReadRefused(groups[gi], e.tag, e.kind) THEN CTrue("reading what is not stored is refused", e.err # "")
    ELSE IF e.err # "" THEN Mis("reading", "", e.err)
    ELSE LET want == Read(groups[gi], e.tag) IN
         IF Len(want) # Len(e.got) THEN Mis("number of estimates read (" \o e.tag \o ")", Len(want), Len(e.got))
         ELSE Flat([k \in 1..Len(want) |-> CExact("time read", want[k].t, e.got[k].t) \o CDist("state read", want[k].s, e.got[k].s) \o CDist("output read", want[k].o, e.got[k].o)])
(* The datasets themselves *)
CheckPart(tag, p, kind, d) ==
    IF p.what = "none" THEN CTrue("no group for " \o tag, d.keys = <<>>)
    ELSE CTrue("datasets of " \o tag, {d.keys[i] : i \in 1..Len(d.keys)} = KeysOf(p.what, kind))
      \o CTrue("size of " \o tag, p.cap = Unlimited \/ d.n = p.cap)
      \o CTrue("entries of " \o tag, Len(d.at) = Len(p.rows) /\ \A r \in 1..Len(p.rows) : r <= Len(d.at) => d.at[r] = p.rows[r].at)
      \o (IF Len(d.at) # Len(p.rows) THEN OK ELSE
          CNestX("stored times of " \o tag, [r \in 1..Len(p.rows) |-> p.rows[r].t], d.time)
       \o CNestX("stored states of " \o tag, [r \in 1..Len(p.rows) |-> p.rows[r].s.mean], d.state)
       \o CNestX("stored outputs of " \o tag, [r \in 1..Len(p.rows) |-> p.rows[r].o.mean], d.output))
CheckMeta(m, o) ==
    CEq("state names", NamesFrom(m.sfields), o.state_names) \o CEq("output names", NamesFrom(m.ofields), o.output_names)
    \o CEq("estimator", m.estimator, o.estimator) \o CEq("distribution", m.distribution, o.distribution) \o CEq("cell model", m.model, o.model)
    \o CNestX("initial health", m.asoh, o.asoh) \o CNestX("initial state", m.transients, o.transients)
    \o CEq("settings", m.settings, o.settings)
CheckLook(e) ==
    LET gi == At(st, e.file, e.key) IN
    IF gi = 0 THEN CTrue("group is absent", ~e.there)
    ELSE IF ~e.there THEN Mis("group is there", TRUE, FALSE)
    ELSE LET g == groups[gi] IN
         IF g.meta = <<>> THEN CTrue("nothing was prepared", e.step.keys = <<>> /\ e.cycle.keys = <<>>)
         ELSE CheckPart("steps", g.step, g.meta[1].distribution, e.step) \o CheckPart("cycles", g.cycle, g.meta[1].distribution, e.cycle) \o CheckMeta(g.meta[1], e.meta)
CheckRun(e) ==
    LET seen == Processed(e)
        complete == Len(seen) = Len(e.rows) IN
    CNestX("estimator after the run", ests'[e.i].x, e.after) \o CTrue("number of rows the estimator has seen", ests'[e.i].seen = e.count)
    \o (IF ~complete THEN CTrue("the failure reaches the caller", e.err # "")
        ELSE IF e.err # "" THEN Mis("running", "", e.err)
        ELSE CTrue("the estimator is given back", e.same)
          \o (IF ~e.table THEN CTrue("no table", e.cols = <<>>)
              ELSE CEq("columns", TableColumns(NamesFrom(e.meta.sfields), NamesFrom(e.meta.ofields)), e.cols)
                \o (LET want == TableOf(ests[e.i], e.rows) IN
                    IF Len(want) # Len(e.out) THEN Mis("rows of the table", Len(want), Len(e.out)) ELSE CNest("table", want, e.out, "1e-12", "1"))))
CheckLine(e) ==
    CASE e.ev = "crash" -> Mis("unexpected exception", "", e.what)
      [] e.ev = "prepare" -> CTrue("preparation is refused if and only if it must be", (e.err # "") = PrepareRefused(e.w, e.steps, e.cycles))
      [] e.ev = "append" /\ e.o1 = 0 -> CTrue("a step is refused if and only if it must be", (e.err # "") = AppendRefused(e.w, e.e))
      [] e.ev \in {"open", "close"} -> CTrue("ready", e.ready = (e.ev = "open"))
      [] e.ev = "read" -> CheckRead(e)
      [] e.ev = "look" -> CheckLook(e)
      [] e.ev = "input" -> CNestX("inputs of a row", InputsOf(e.row, e.default), e.input) \o CNestX("measurement of a row", <<e.row.v>>, e.output)
      [] e.ev = "hand" -> LET n == ests'[e.i] IN CDist("state", StateOf(n), e.s) \o CDist("output", OutputOf(n, e.row), e.o)
      [] e.ev = "run" -> CheckRun(e)
      [] OTHER -> OK
TInit == OInit /\ LibInit
TNext == More /\ Act(Line) /\ Report(CheckLine(Line))
TSpec == TInit /\ [][TNext]_<<st, ests, l, nbad>>
=============================================================================
