------------------------------ MODULE MCOnline ------------------------------
(* The driver, row by row, with a failure after any row, next to an estimator that is stepped by hand *)
EXTENDS Online, TLC
CONSTANT Wide
VARIABLES data, opts, table, phase, x0
T(k) == IF k = 2 THEN <<>> ELSE <<k>>
RowsOf(n, cs) == [k \in 1..n |-> [t |-> 3 * k, i |-> k - 2, v |-> 5 - k, T |-> T(k), c |-> cs[k]]]
Few == {<<<<0>>, <<0>>, <<1>>, <<1>>>>, <<<<0>>, <<2>>, <<2>>, <<5>>>>, <<<<1>>, <<0>>, <<1>>, <<0>>>>, <<<<>>, <<>>, <<>>, <<>>>>, <<<<7>>, <<7>>, <<7>>, <<8>>>>}
Cs == Few \cup (IF Wide THEN {[k \in 1..4 |-> <<f[k]>>] : f \in [1..4 -> {0, 1, 3}]} ELSE {})
MCInit == \E n \in 0..4, cs \in Cs, x \in {<<3>>, <<3, 8>>}, no \in {1, 2}, s \in {"full", "mean_cov", "mean_var", "mean", "none"}, c \in {"full", "mean", "none"}, z \in BOOLEAN, sm \in BOOLEAN :
    /\ table = <<>> /\ phase = "start" /\ x0 = [x |-> x, no |-> no, seen |-> 0]
    /\ ests = <<x0>>
    /\ data = RowsOf(n, cs)
    /\ opts = [step |-> s, cycle |-> c, resizable |-> z, streamed |-> sm]
    /\ st = [groups |-> <<>>, writers |-> <<[file |-> "f", key |-> "k", opts |-> [step |-> s, cycle |-> c, resizable |-> z], open |-> FALSE, pos |-> 0, ready |-> FALSE]>>]
Start == phase = "start" /\ phase' = "open" /\ Open(1) /\ UNCHANGED <<ests, data, opts, table, x0>>
Ready == /\ phase = "open" /\ Prepare(1, Len(data), CyclesExpected(data, opts.streamed), [distribution |-> "Gaussian"])
         /\ phase' = IF PrepareRefused(1, Len(data), CyclesExpected(data, opts.streamed)) THEN "refused" ELSE "rows"
         /\ UNCHANGED <<ests, data, opts, table, x0>>
Next1 == LET k == Len(table) + 1 IN
    /\ phase = "rows" /\ k <= Len(data)
    /\ RowStored(1, 1, data[k])
    /\ table' = Append(table, TableRow(ests'[1], data[k]))
    /\ phase' = phase /\ UNCHANGED <<data, opts, x0>>
Done == phase = "rows" /\ Len(table) = Len(data) /\ Close(1) /\ phase' = "done" /\ UNCHANGED <<ests, data, opts, table, x0>>
Fail == phase \in {"open", "refused", "rows"} /\ Close(1) /\ phase' = "failed" /\ UNCHANGED <<ests, data, opts, table, x0>>
MCSpec == MCInit /\ [][Start \/ Ready \/ Next1 \/ Done \/ Fail]_<<st, ests, data, opts, table, phase, x0>>

Aligned == \A k \in 1..Len(table) : table[k] = TableRow(AfterRows(x0, SubSeq(data, 1, k)), data[k])
AsByHand == ests[1] = AfterRows(x0, SubSeq(data, 1, Len(table))) /\ ests[1].seen = Len(table)
Complete == phase = "done" => table = TableOf(x0, data)
(* Whatever happens, the store has exactly the rows processed: sizes announced to it always suffice *)
StoredExactly == \A g \in 1..Len(groups) :
    /\ groups[g].step.what # "none" => LET es == EntriesOf(x0, SubSeq(data, 1, Len(table))) IN
          Read(groups[g], "step") = [i \in 1..Len(es) |-> [t |-> es[i].t, s |-> AsRead(groups[g].step.what, es[i].s), o |-> AsRead(groups[g].step.what, es[i].o)]]
    /\ groups[g].cycle.what # "none" => {groups[g].cycle.rows[r].at : r \in 1..Len(groups[g].cycle.rows)} = {CycleOf(data[k]) : k \in 1..Len(table)}
RoomForEveryRow == phase = "rows" /\ Len(table) < Len(data) => LET r == data[Len(table) + 1] IN ~AppendRefused(1, EntryOf(StepEst(ests[1], r), r))
Terminates == phase \in {"done", "failed"} => ~writers[1].open
=============================================================================
