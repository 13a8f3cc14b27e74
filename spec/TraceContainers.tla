-------------------------- MODULE TraceContainers --------------------------
EXTENDS Containers, TraceLib
Act(e) ==
    CASE e.ev = "new" -> New(e.c)
      [] e.ev = "array" -> NewArray(e.a)
      [] e.ev = "pack" -> Pack(e.i)
      [] e.ev = "unpack" -> Unpack(e.i, e.j)
      [] e.ev = "copy" -> Copy(e.i, e.j)
      [] e.ev = "clone" -> Clone(e.i)
      [] e.ev = "write" -> Write(e.j, e.a)
      [] e.ev = "poke" -> Poke(e.i, e.k, e.v)
      [] e.ev = "reset" -> cs' = <<>> /\ as' = <<>>
      [] OTHER -> UNCHANGED <<cs, as>>
CheckC(c, o) ==
    Flat([k \in 1..Len(c) |-> CNestX("field " \o c[k].k, c[k].v, o.vals[k])])
    \o CEq("names", NamesOf(c), o.names) \o CEq("length", Columns(c), o.len) \o CEq("batch size", BatchOf(c), o.batch)
    \o CEq("names of fields", [k \in 1..Len(c) |-> c[k].k], o.fields)
    \o CEq("length of fields", [k \in 1..Len(c) |-> WidthOf(c[k])], o.lens)
    \o CEq("expanded names", Flat([k \in 1..Len(c) |-> FieldNames(c[Len(c) + 1 - k])]), o.rev)
Check(e) ==
    IF e.ev = "crash" THEN Mis("unexpected exception", "", e.what)
    ELSE IF ~Has(e, "cs") THEN OK
    ELSE CEq("number of containers", Len(cs'), Len(e.cs)) \o CEq("number of arrays", Len(as'), Len(e.as))
      \o (IF Len(cs') = Len(e.cs) THEN Flat([i \in 1..Len(cs') |-> CheckC(cs'[i], e.cs[i])]) ELSE OK)
      \o (IF Len(as') = Len(e.as) THEN Flat([i \in 1..Len(as') |-> CNestX("array", as'[i], e.as[i])]) ELSE OK)
TInit == Init /\ LibInit
TNext == More /\ Act(Line) /\ Report(Check(Line))
TSpec == TInit /\ [][TNext]_<<cs, as, l, nbad>>
=============================================================================
