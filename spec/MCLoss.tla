------------------------------- MODULE MCLoss -------------------------------
(* Losses of data which were simulated with known parameters.                *)
EXTENDS Loss, TLC
CONSTANTS Most
VARIABLES log        \* evaluations so far: [i, vec, value]
Lays == {[cell |-> "toy", q |-> 0, nw |-> 1, nT |-> 1, ne |-> 0], [cell |-> "toy", q |-> 1, nw |-> 0, nT |-> 1, ne |-> 0]}
Base == [a |-> "1.2", v |-> <<"0.8", "0.5">>, b |-> "0.9", z |-> "0.3"]
Sels == {<<>>, <<"a">>, <<"sub.b", "v">>}
Given == {[lay |-> lay, base |-> Base, sel |-> sel, x |-> <<"0.5", "-0.2">>] : lay \in Lays, sel \in Sels}
Rows0 == <<[t |-> 0, i |-> "1", tp |-> "25"], [t |-> 1, i |-> "-0.5", tp |-> "30"], [t |-> 1, i |-> "0.3", tp |-> "25"], [t |-> "2.5", i |-> "0.7", tp |-> "20"]>>
Truths(c) == {Start(c), [k \in 1..Len(Start(c)) |-> RAdd(Start(c)[k], RDiv(k, 10))]}
Data(c, truth, n, off) ==
    LET d == [c EXCEPT !.rows = [k \in 1..n |-> [t |-> Rows0[k].t, i |-> Rows0[k].i, tp |-> Rows0[k].tp, v |-> 0]]]
        ps == Predicted(d, truth) IN
    [d EXCEPT !.rows = [k \in 1..n |-> [d.rows[k] EXCEPT !.v = RAdd(ps[k], off)]]]
Offs == {"0", "0.5"}
WithRows(c) == [lay |-> c.lay, base |-> c.base, sel |-> c.sel, x |-> c.x, rows |-> <<>>]
MCInit == ls = <<>> /\ log = <<>>
Create == Len(ls) < Most /\ \E g \in Given, n \in {1, 4}, off \in Offs :
    LET c == WithRows(g) IN \E tr \in {0, 1} :
        LET truth == IF tr = 0 THEN Start(c) ELSE [k \in 1..Len(Start(c)) |-> RAdd(Start(c)[k], RDiv(k, 10))] IN
        /\ New(TLCEval(Data(c, truth, n, off)))
        /\ log' = Append(log, [i |-> Len(ls) + 1, vec |-> TLCEval(truth), value |-> RMul(off, off), known |-> TRUE])
Evaluate == Len(log) < Most + 2 /\ \E i \in 1..Len(ls), k \in {0, 1} :
    LET vec == IF k = 0 THEN Start(ls[i]) ELSE log[i].vec IN
    /\ Evaluated
    /\ log' = Append(log, [i |-> i, vec |-> vec, value |-> TLCEval(Value(ls[i], vec)), known |-> FALSE])
MCNext == Create \/ Evaluate
(* The loss at the truth is the square of the offset; values never depend on what was evaluated before *)
TruthIsBest == \A j \in 1..Len(log) : log[j].known => RClose(Value(ls[log[j].i], log[j].vec), log[j].value, "1e-20", 1)
Repeatable == \A j, k \in 1..Len(log) : log[j].i = log[k].i /\ SameNest(log[j].vec, log[k].vec, "1e-25", 1) => RClose(log[j].value, log[k].value, "1e-20", 1)
NotNegative == \A j \in 1..Len(log) : RLe(0, log[j].value)
VectorAndObjects == \A i \in 1..Len(ls) : LET v == Start(ls[i]) IN
    /\ StatePart(ls[i], v) = ls[i].x /\ HealthPart(ls[i], v) = ls[i].base
    /\ GetSel(ls[i].lay, HealthPart(ls[i], log[i].vec), ls[i].sel) = SubSeq(log[i].vec, Dimx(ls[i].lay) + 1, Len(log[i].vec))
OnePerRow == \A i \in 1..Len(ls) : Len(Predicted(ls[i], Start(ls[i]))) = Len(ls[i].rows)
MCSpec == MCInit /\ [][MCNext]_<<ls, log>>
=============================================================================
