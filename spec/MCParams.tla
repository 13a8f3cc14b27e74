------------------------------ MODULE MCParams ------------------------------
(* A small description explored completely; the same exploration, with the   *)
(* history of commands, generates histories for the real code.               *)
EXTENDS Params, TLC, Json
CONSTANT Depth, Gen
VARIABLES hist
P(k, v) == [k |-> k, t |-> "p", v |-> v, m |-> [fs |-> <<>>, upd |-> {}], ms |-> <<>>]
Nest(k, n) == [k |-> k, t |-> "m", v |-> <<>>, m |-> n, ms |-> <<>>]
Coll(k, t, s) == [k |-> k, t |-> t, v |-> <<>>, m |-> [fs |-> <<>>, upd |-> {}], ms |-> s]
Nd(fs) == [fs |-> fs, upd |-> {}]
Tree == Nd(<<P("a", <<<<1>>>>),
             Nest("b", Nd(<<P("c", <<<<2, 3>>>>), P("d", <<<<4>>>>)>>)),
             Coll("e", "s", <<[k |-> "0", m |-> Nd(<<P("f", <<<<5>>>>)>>)], [k |-> "1", m |-> Nd(<<P("f", <<<<6>>>>), P("g", <<<<7>>>>)>>)]>>),
             Coll("h", "d", <<[k |-> "x", m |-> Nd(<<P("f", <<<<8>>>>)>>)]>>)>>)
AllPaths == {Paths(Tree, FALSE)[i] : i \in 1..Len(Paths(Tree, FALSE))}
Vals(n, B) == [b \in 1..B |-> [i \in 1..n |-> (IF Gen THEN 10 * Len(hist) ELSE 0) + 100 * b + i]]
Step(c) == hist' = Append(hist, c)
MCInit == objs = <<Tree>> /\ err = FALSE /\ hist = <<>>
Do ==
    \E i \in 1..Len(objs) :
    \/ \E p \in AllPaths : MarkOne(i, p) /\ Step([op |-> "mark", i |-> i, path |-> p])
    \/ \E rec \in BOOLEAN : MarkAll(i, rec) /\ Step([op |-> "mark_all", i |-> i, rec |-> rec])
    \/ \E rec \in BOOLEAN : MarkNone(i, rec) /\ Step([op |-> "mark_none", i |-> i, rec |-> rec])
    \/ \E n \in {NumUpdatable(objs[i]) - 1, NumUpdatable(objs[i]), NumUpdatable(objs[i]) + 1} :
          n > 0 /\ UpdateMarked(i, Vals(n, 1)) /\ Step([op |-> "update_marked", i |-> i, vals |-> Vals(n, 1)])
    \/ \E p \in AllPaths, q \in AllPaths : p # q /\ LET n == Width(At(objs[i], p)) + Width(At(objs[i], q)) IN
          Update(i, <<p, q>>, Vals(n, 1)) /\ Step([op |-> "update", i |-> i, paths |-> <<p, q>>, vals |-> Vals(n, 1)])
    \/ Len(objs) < 2 /\ NumUpdatable(objs[i]) > 0 /\ Copy(i, Paths(objs[i], TRUE), Vals(NumUpdatable(objs[i]), 1))
          /\ Step([op |-> "copy", i |-> i, paths |-> Paths(objs[i], TRUE), vals |-> Vals(NumUpdatable(objs[i]), 1)])
MCNext == Len(hist) < Depth /\ Do
MCSpec == MCInit /\ [][MCNext]_<<objs, err, hist>>
Emit == (Gen /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
View == <<objs, err, Len(hist)>>
Unchanged == RefusedIsUnchanged
=============================================================================
