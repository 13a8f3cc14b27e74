------------------------------ MODULE MCSerial ------------------------------
EXTENDS Serial, TLC, Json
CONSTANTS Depth, MaxObjs, MaxTexts, Gen
VARIABLES cmds
P(k, v) == [k |-> k, t |-> "p", v |-> v, m |-> [fs |-> <<>>, upd |-> {}], ms |-> <<>>]
Nest(k, n) == [k |-> k, t |-> "m", v |-> <<>>, m |-> n, ms |-> <<>>]
Coll(k, t, s) == [k |-> k, t |-> t, v |-> <<>>, m |-> [fs |-> <<>>, upd |-> {}], ms |-> s]
Nd(fs) == [fs |-> fs, upd |-> {}]
Tree == Nd(<<P("a", <<<<1>>>>),
             Nest("b", Nd(<<P("c", <<<<2, 3>>>>)>>)),
             Coll("e", "s", <<[k |-> "0", m |-> Nd(<<P("f", <<<<5>>>>)>>)], [k |-> "1", m |-> Nd(<<P("f", <<<<6>>>>)>>)]>>),
             Coll("h", "d", <<[k |-> "x", m |-> Nd(<<P("f", <<<<8>>>>)>>)]>>)>>)
AllPaths == {Paths(Tree, FALSE)[i] : i \in 1..Len(Paths(Tree, FALSE))}
Vals(n, B, k) == [b \in 1..B |-> [i \in 1..n |-> 1000 * k + 100 * b + i]]
Step(c) == cmds' = Append(cmds, c)
MCInit == /\ objs = <<Tree>> /\ err = FALSE /\ opts = <<<<[k |-> "style", v |-> 1]>>>> /\ hist = <<<<"tree">>>> /\ texts = <<>> /\ seen = <<>>
          /\ cmds = <<>>
Do ==
    \/ \E i \in 1..Len(objs) :
        \/ \E p \in AllPaths : MarkOne(i, p) /\ SAlter(i, "mark " \o Dots(p)) /\ Step([op |-> "mark", i |-> i, path |-> p])
        \/ MarkAll(i, TRUE) /\ SAlter(i, "all") /\ Step([op |-> "mark_all", i |-> i, rec |-> TRUE])
        \/ MarkNone(i, FALSE) /\ SAlter(i, "none") /\ Step([op |-> "mark_none", i |-> i, rec |-> FALSE])
        \/ \E B \in {1, 2}, n \in {NumUpdatable(objs[i])} : n > 0
              /\ LET vs == Vals(n, B, IF Gen THEN Len(cmds) ELSE 1) IN
                 UpdateMarked(i, vs) /\ SAlter(i, "update " \o ToString(vs)) /\ Step([op |-> "update_marked", i |-> i, vals |-> vs])
        \/ Len(texts) < MaxTexts /\ WriteText(i) /\ Step([op |-> "write", i |-> i])
    \/ \E j \in 1..Len(texts) : Len(objs) < MaxObjs /\ ReadText(j) /\ Step([op |-> "read", j |-> j])
MCNext == Len(cmds) < Depth /\ Do
MCSpec == MCInit /\ [][MCNext]_<<svars, cmds>>
View == <<objs, err, opts, hist, texts, Len(cmds)>>
(* worth replaying: something was read, and changed since *)
Emit == (Gen /\ Len(cmds) = Depth /\ Len(objs) > 1) => PrintT("HIST " \o ToJson(cmds))
=============================================================================
