------------------------------- MODULE MCSim -------------------------------
(* Two simulators made from the same objects, one of which keeps its history *)
EXTENDS Simulator, TLC, Json
CONSTANTS Depth, Gen
VARIABLES hist
F(k, v) == [k |-> k, v |-> v]
U(t, i) == <<F("time", <<<<t>>>>), F("current", <<<<i>>>>)>>
Xs == {<<F("s", <<<<3>>>>), F("q", q), F("w", w)>> : q \in {<<>>, <<<<5>>>>}, w \in {<<<<>>>>, <<<<7, 11>>>>, <<<<7>>, <<8>>>>}}
Ps == {<<<<2>>>>, <<<<2>>, <<4>>>>}
Kinds == {"none", "full"}
MCInit == \E p \in Ps, x \in Xs, kind \in Kinds, ne \in {0, 2} :
    /\ sims = <<>> /\ hist = <<[op |-> "objects", p |-> p, x |-> x, u |-> U(1, 4), ne |-> ne, kind |-> kind]>>
O == hist[1]
Time == Len(hist) * 3
Do == \/ Len(sims) < 2 /\ \E keep \in BOOLEAN : New(O.p, O.x, O.u, O.ne, O.kind, keep) /\ hist' = Append(hist, [op |-> "new", keep |-> keep])
      \/ \E i \in 1..Len(sims), c \in {0, 6} : Step(i, U(Time, c)) /\ hist' = Append(hist, [op |-> "step", i |-> i, u |-> U(Time, c)])
      \/ \E i \in 1..Len(sims) : LET us == <<U(Time, 5), U(Time + 1, 0)>> IN Evolve(i, us) /\ hist' = Append(hist, [op |-> "evolve", i |-> i, us |-> us])
      \/ Len(sims) > 0 /\ \E w \in {"p", "x", "u"} : CallerWrites /\ hist' = Append(hist, [op |-> "write", what |-> w])
MCNext == Len(hist) < Depth /\ Do
MCSpec == MCInit /\ [][MCNext]_<<sims, hist>>
Agree == Len(sims) = 2 =>     \* the same inputs lead to the same state, whether or not the history is kept
    LET mine(i) == SelectSeq(hist, LAMBDA h : h.op \in {"step", "evolve"} /\ h.i = i)
        ins(i) == Flat([k \in 1..Len(mine(i)) |-> IF mine(i)[k].op = "step" THEN <<mine(i)[k].u>> ELSE mine(i)[k].us]) IN
    ins(1) = ins(2) => sims[1].x = sims[2].x /\ sims[1].m = sims[2].m /\ sims[1].p = sims[2].p
Emit == (Gen /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
=============================================================================
