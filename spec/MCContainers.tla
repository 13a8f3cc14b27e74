---------------------------- MODULE MCContainers ----------------------------
EXTENDS Containers, TLC, Json
CONSTANTS Depth, Gen
VARIABLE hist
F(k, v) == [k |-> k, v |-> v]
Starts == {<<F("a", <<<<1>>>>), F("b", x), F("c", y), F("d", z)>> :
             x \in {<<>>, <<<<2>>>>}, y \in {<<<<3, 4>>>>, <<<<3, 4>>, <<5, 6>>>>, <<<<>>>>}, z \in {<<>>, <<<<7>>, <<8>>>>}}
Fresh(n, B) == [b \in 1..B |-> [i \in 1..n |-> (IF Gen THEN 10 * Len(hist) ELSE 0) + 100 * b + i]]
Step(c) == hist' = Append(hist, c)
MCInit == \E s \in Starts : cs = <<s>> /\ as = <<>> /\ hist = <<[op |-> "new", c |-> s]>>
Do == \/ \E i \in 1..Len(cs) : Len(as) < 2 /\ Pack(i) /\ Step([op |-> "pack", i |-> i])
      \/ \E i \in 1..Len(cs), B \in {1, 2} : Len(as) < 2 /\ LET a == Fresh(Columns(cs[i]), B) IN NewArray(a) /\ Step([op |-> "array", a |-> a])
      \/ \E i \in 1..Len(cs), j \in 1..Len(as) : Len(as[j][1]) = Columns(cs[i]) /\ Unpack(i, j) /\ Step([op |-> "unpack", i |-> i, j |-> j])
      \/ \E i \in 1..Len(cs), j \in 1..Len(as) : Len(cs) < 2 /\ Len(as[j][1]) = Columns(cs[i]) /\ Copy(i, j) /\ Step([op |-> "copy", i |-> i, j |-> j])
      \/ \E j \in 1..Len(as) : LET a == [b \in 1..Len(as[j]) |-> [i \in 1..Len(as[j][b]) |-> -as[j][b][i]]] IN Write(j, a) /\ Step([op |-> "write", j |-> j, a |-> a])
MCNext == Len(hist) < Depth /\ Do
MCSpec == MCInit /\ [][MCNext]_<<cs, as, hist>>
Emit == (Gen /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
View == <<cs, as, Len(hist)>>
=============================================================================
