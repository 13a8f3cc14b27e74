----------------------------- MODULE TraceParams -----------------------------
EXTENDS Params, TraceLib
LOCAL INSTANCE Num
RECURSIVE Conv(_)   \* marks arrive as sequences
Conv(nd) == [fs |-> TLCEval([i \in 1..Len(nd.fs) |->
                LET f == nd.fs[i] IN
                [f EXCEPT !.m = IF f.t = "m" THEN Conv(f.m) ELSE <<>>,
                          !.ms = IF f.t \in {"s", "d"} THEN [j \in 1..Len(f.ms) |-> [k |-> f.ms[j].k, m |-> Conv(f.ms[j].m)]] ELSE <<>>]]),
             upd |-> {nd.upd[i] : i \in 1..Len(nd.upd)}]

PathsOf(e) == IF IsSeq(e.paths) THEN e.paths ELSE Paths(objs[e.i], TRUE)
Act(e) ==
    CASE e.ev = "new" -> Create(Conv(e.tree))
      [] e.ev = "mark" -> MarkOne(e.i, e.path)
      [] e.ev = "mark_all" -> MarkAll(e.i, e.rec)
      [] e.ev = "mark_none" -> MarkNone(e.i, e.rec)
      [] e.ev = "update" -> Update(e.i, PathsOf(e), e.vals)
      [] e.ev = "copy" -> Copy(e.i, PathsOf(e), e.vals)
      [] e.ev = "set" -> SetOne(e.i, e.path, e.form, e.val)
      [] e.ev = "reset" -> objs' = <<>> /\ err' = FALSE
      [] OTHER -> UNCHANGED objs /\ err' = FALSE

CheckNames(nd, o) ==
    CEq("all names", Names(nd, FALSE), o.names) \o CEq("updatable names", Names(nd, TRUE), o.upd)
    \o CEq("number of updatable values", NumUpdatable(nd), o.num) \o CEq("batch size", Batch(nd), o.batch)
    \o CEq("names of every value", Expand(nd, Paths(nd, FALSE)), o.exp) \o CEq("names of updatable values", Expand(nd, Paths(nd, TRUE)), o.expu)
    \o CNestX("vector of updatable values", Get(nd, Paths(nd, TRUE)), o.vec) \o CNestX("vector of all values", Get(nd, Paths(nd, FALSE)), o.vals)
CheckLeaves(nd, o) ==
    Flat([j \in 1..Len(Params(nd, FALSE)) |->
        LET p == Params(nd, FALSE)[j] IN CNestX("value of " \o Dots(p.path), p.v, o[j])])

Check(e) ==
    IF e.ev = "crash" THEN Mis("unexpected exception", "", e.what)
    ELSE (IF Has(e, "err") THEN CEq("refused", err', e.err # "") ELSE OK)
      \o (IF Has(e, "objs") /\ ~(err' = FALSE /\ Has(e, "err") /\ e.err # "")
          THEN IF Len(e.objs) # Len(objs') THEN Mis("number of descriptions", Len(objs'), Len(e.objs))
               ELSE Flat([i \in 1..Len(objs') |-> IF Has(e.objs[i], "names") THEN CheckNames(objs'[i], e.objs[i]) ELSE CheckLeaves(objs'[i], e.objs[i].leaves)])
          ELSE OK)
      \o (IF e.ev = "get" THEN CNestX("values read by name", Get(objs[e.i], PathsOf(e)), e.got) ELSE OK)
      \o (IF e.ev = "expand" THEN CEq("expanded names", Expand(objs[e.i], PathsOf(e)), e.got) ELSE OK)

TInit == Init /\ LibInit
TNext == More /\ Act(Line) /\ Report(Check(Line))
TSpec == TInit /\ [][TNext]_<<objs, err, l, nbad>>
=============================================================================
