---------------------------- MODULE TraceIsolate ----------------------------
EXTENDS Isolate, TraceLib
LOCAL INSTANCE Num
Act(e) ==
    CASE e.ev = "hold" -> Hold(e.n, e.val)
      [] e.ev = "duplicate" -> Duplicate(e.n, e.of)
      [] e.ev = "change" -> Change(e.n, e.val)
      [] e.ev = "make" -> Make(e.kind, e.names)
      [] e.ev = "operate" -> Operate(e.u, e.op, e.names, e.a)
      [] e.ev = "reset" -> store' = <<>> /\ users' = <<>> /\ seen' = <<>> /\ nver' = 0
      [] OTHER -> UNCHANGED ivars

Check(e) ==
    IF e.ev = "crash" THEN Mis("unexpected exception", "", e.what)
    ELSE (IF Has(e, "store")
          THEN Flat([i \in 1..Len(store') |->
                  IF SameNestX(store'[i].val, e.store[i]) THEN OK
                  ELSE Mis("object of the caller: " \o store'[i].n, store'[i].val, e.store[i])])
          ELSE OK)
      \o (IF e.ev = "operate"
          THEN LET mine == seen'[Len(seen')] IN
               Flat([k \in 1..Len(seen) |-> IF seen[k].h = mine.h THEN CNest("answer of " \o users[e.u][1].op \o " to " \o e.op, seen[k].a, e.a, "1e-9", 1) ELSE OK])
          ELSE OK)

TInit == IInit /\ LibInit
TNext == More /\ Act(Line) /\ Report(Check(Line))
TSpec == TInit /\ [][TNext]_<<ivars, l, nbad>>
=============================================================================
