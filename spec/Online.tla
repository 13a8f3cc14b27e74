------------------------------- MODULE Online -------------------------------
(* Running an online estimator over a dataset: rows are handed to it one by  *)
(* one, and each row yields one estimate, which becomes a row of the table   *)
(* and a step in the store.  The estimator is a small one in integer         *)
(* arithmetic in which everything influences everything, so that a missing,  *)
(* repeated or displaced row shows.                                          *)
(*                                                                           *)
(* A row of data is [t, i, v, T, c]: time, current, voltage, temperature     *)
(* (<<>> or <<number>>), cycle number (<<>> or <<number>>).                  *)
EXTENDS Store
LOCAL INSTANCE TLC
LOCAL INSTANCE Num
VARIABLES ests     \* [x: integers, no: number of outputs, seen: number of rows seen]

Md(x) == x % 997
Default == 25
TempOf(row, default) == IF row.T = <<>> THEN default ELSE row.T[1]
CycleOf(row) == IF row.c = <<>> THEN 0 ELSE row.c[1]
InputsOf(row, default) == <<row.t, row.i, TempOf(row, default)>>

NewX(x, row) == LET T == TempOf(row, Default) IN
    TLCEval([j \in 1..Len(x) |-> Md(2 * x[j] + j * (row.t + 3 * row.i + 5 * T + 7 * row.v) + (IF j = 1 THEN x[Len(x)] ELSE x[j - 1]) + 1000 * j)])
SdOf(x, j) == 2 * ((x[j] % 7) + j)
RECURSIVE SumX(_, _)
SumX(x, n) == IF n = 0 THEN 0 ELSE x[n] + SumX(x, n - 1)
OutMean(x, no, i) == [k \in 1..no |-> Md(SumX(x, Len(x)) + k * i + 1000 * k)]
OutSd(x, k) == 2 * (k + (x[1] % 5))
Sds(x) == [j \in 1..Len(x) |-> SdOf(x, j)]
OutSds(x, no) == [k \in 1..no |-> OutSd(x, k)]
CovFrom(sd) == [a \in 1..Len(sd) |-> [b \in 1..Len(sd) |-> IF a = b THEN sd[a] * sd[a] ELSE (sd[a] * sd[b]) \div 2]]
Dist(m, sd) == [kind |-> "Gaussian", mean |-> m, cov |-> CovFrom(sd)]

(* One row *)
StepEst(e, row) == [e EXCEPT !.x = NewX(@, row), !.seen = @ + 1]
StateOf(e) == Dist(e.x, Sds(e.x))
OutputOf(e, row) == Dist(OutMean(e.x, e.no, row.i), OutSds(e.x, e.no))    \* e: after the row
TableRow(e, row) == e.x \o Sds(e.x) \o OutMean(e.x, e.no, row.i) \o OutSds(e.x, e.no)
EntryOf(e, row) == [t |-> row.t, c |-> CycleOf(row), s |-> StateOf(e), o |-> OutputOf(e, row)]

RECURSIVE AfterRows(_, _)
AfterRows(e, rows) == IF rows = <<>> THEN e ELSE AfterRows(TLCEval(StepEst(e, Head(rows))), Tail(rows))
RECURSIVE TableOf(_, _)
TableOf(e, rows) == IF rows = <<>> THEN <<>> ELSE LET n == TLCEval(StepEst(e, Head(rows))) IN <<TableRow(n, Head(rows))>> \o TableOf(n, Tail(rows))
RECURSIVE EntriesOf(_, _)
EntriesOf(e, rows) == IF rows = <<>> THEN <<>> ELSE LET n == TLCEval(StepEst(e, Head(rows))) IN <<EntryOf(n, Head(rows))>> \o EntriesOf(n, Tail(rows))
StdNames(ns) == [i \in 1..Len(ns) |-> ns[i] \o "_std"]
TableColumns(sn, on) == sn \o StdNames(sn) \o on \o StdNames(on)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* What the driver tells the store to expect: as many steps as rows; cycles from zero to the last one, if it can see them all *)
CyclesExpected(rows, streamed) == IF streamed THEN -1 ELSE IF rows = <<>> THEN 0 ELSE MaxOf({CycleOf(rows[k]) : k \in 1..Len(rows)}) + 1

OInit == Init /\ ests = <<>>
NewEst(x, no) == ests' = Append(ests, [x |-> x, no |-> no, seen |-> 0]) /\ UNCHANGED st
Row(i, row) == ests' = [ests EXCEPT ![i] = StepEst(@, row)] /\ UNCHANGED st
RowStored(i, w, row) == LET n == StepEst(ests[i], row) IN
    /\ ests' = [ests EXCEPT ![i] = n]
    /\ AppendStep(w, EntryOf(n, row))
=============================================================================
