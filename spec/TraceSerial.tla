----------------------------- MODULE TraceSerial -----------------------------
(* Observations: "objs" lists [tree, opts] of every description; an option   *)
(* is [k, txt, v]: its name, its value if it is text, its numbers.           *)
EXTENDS Serial, TraceParams
LOCAL INSTANCE Num
LOCAL INSTANCE TLC
SAct(e) ==
    CASE e.ev = "new" -> SNew(Conv(e.tree), e.opts, e.tag)
      [] e.ev = "write" -> WriteText(e.i)
      [] e.ev = "read" -> ReadText(e.j)
      [] e.ev = "ask" -> Ask(e.i, e.q, e.ans)
      [] e.ev = "reset" -> objs' = <<>> /\ err' = FALSE /\ opts' = <<>> /\ hist' = <<>> /\ texts' = <<>> /\ seen' = <<>>
      [] e.ev \in {"mark", "mark_all", "mark_none", "update", "set"} -> Act(e) /\ SAlter(e.i, e.tag)
      [] OTHER -> UNCHANGED svars

RECURSIVE CTree(_, _, _)
CTree(where, nd, g) ==
    IF Len(g.fs) # Len(nd.fs) THEN Mis("fields" \o where, Len(nd.fs), Len(g.fs))
    ELSE CEq("marks" \o where, {nd.fs[i].k : i \in 1..Len(nd.fs)} \cap nd.upd, {nd.fs[i].k : i \in 1..Len(nd.fs)} \cap {g.upd[i] : i \in 1..Len(g.upd)})
      \o Flat([i \in 1..Len(nd.fs) |->
            LET f == nd.fs[i]
                h == g.fs[i]
                at == where \o " " \o f.k IN
            IF ~SameValue(<<f.k, f.t>>, <<h.k, h.t>>) THEN Mis("field" \o where, <<f.k, f.t>>, <<h.k, h.t>>)
            ELSE CASE f.t = "p" -> CNestX("value of" \o at, f.v, h.v)
                   [] f.t = "m" -> CTree(at, f.m, h.m)
                   [] OTHER -> IF Len(f.ms) # Len(h.ms) THEN Mis("members of" \o at, Len(f.ms), Len(h.ms))
                               ELSE Flat([j \in 1..Len(f.ms) |-> CEq("key in" \o at, f.ms[j].k, h.ms[j].k)
                                                                 \o CTree(at \o " " \o f.ms[j].k, f.ms[j].m, h.ms[j].m)])])

(* Points of the state of charge which were not given may be filled in, evenly spread *)
Even(v) == Len(v) > 1 /\ \A i \in 1..Len(v) : RClose(RDiv(i - 1, Len(v) - 1), v[i], "1e-12", 1)
COpts(e, g) ==
    IF Len(e) # Len(g) THEN Mis("number of options", Len(e), Len(g))
    ELSE Flat([i \in 1..Len(e) |->
            CEq("option", e[i].k, g[i].k) \o CEq(e[i].k, e[i].txt, g[i].txt)
            \o (IF e[i].k = "soc_pinpoints" /\ e[i].v = <<>> /\ g[i].v # <<>> THEN CTrue("points evenly spread", Even(g[i].v))
                ELSE CNestX(e[i].k, e[i].v, g[i].v))])

SCheck(e) ==
    IF e.ev = "crash" THEN Mis("unexpected exception", "", e.what)
    ELSE (IF Has(e, "err") THEN CEq("refused", err', e.err # "") ELSE OK)
      \o (IF Has(e, "objs")
          THEN IF Len(e.objs) # Len(objs') THEN Mis("number of descriptions", Len(objs'), Len(e.objs))
               ELSE Flat([i \in 1..Len(objs') |-> CTree("", objs'[i], e.objs[i].tree) \o COpts(opts'[i], e.objs[i].opts)])
          ELSE OK)
      \o (IF e.ev = "write" THEN CEq("text written twice", TRUE, e.again) ELSE OK)
      \o (IF e.ev = "read" THEN CEq("every mark", e.marks, e.got) ELSE OK)
      \o (IF e.ev = "ask" THEN
            Flat([k \in 1..Len(seen) |-> IF seen[k].q = e.q /\ seen[k].hist = hist[e.i] THEN CNestX("answer to " \o e.q, seen[k].a, e.ans) ELSE OK])
          ELSE OK)

STInit == SInit /\ LibInit
STNext == More /\ SAct(Line) /\ Report(SCheck(Line))
STSpec == STInit /\ [][STNext]_<<svars, l, nbad>>
=============================================================================
