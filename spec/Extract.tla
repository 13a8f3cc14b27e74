------------------------------ MODULE Extract ------------------------------
(* Extraction of parameters from measurements.                               *)
(* A dataset is [raw, cycles]: raw = <<>> (no time series) or <<rows>>, a    *)
(* row being [c, t, i, v, q] (cycle, time, current, voltage, charge since    *)
(* the start of the cycle in A-h); cycles = <<>> (no table of cycles) or     *)
(* <<capacities>>, where a capacity is "nan" if it could not be measured.    *)
EXTENDS Mat, Check
LOCAL INSTANCE TLC
VARIABLES ds     \* datasets of the caller

Cube(x) == RMul(x, RMul(x, x))
(* Cubic splines with interior knots ts: powers and truncated cubes span them *)
Basis(ts, x) == <<1, x, RMul(x, x), Cube(x)>> \o [k \in 1..Len(ts) |-> IF RLt(ts[k], x) THEN Cube(RSub(x, ts[k])) ELSE 0]
Weight(i) == RDiv(1, RMax(RAbs(i), "1e-6"))
Interior(pts) == SubSeq(pts, 2, Len(pts) - 1)
(* Coefficients of the spline s which minimises the sum of (weight * (v - s(q / cap)))^2; <<>> if the rows do not determine it *)
Fit(rows, cap, pts) ==
    LET n == Len(rows)
        w == TLCEval([k \in 1..n |-> Weight(rows[k].i)])
        A == TLCEval([k \in 1..n |-> LET p == Basis(Interior(pts), RDiv(rows[k].q, cap)) IN [j \in 1..Len(p) |-> RMul(w[k], p[j])]])
        At == T(A) IN
    RSolve(TLCEval([a \in 1..Len(At) |-> [b \in 1..Len(At) |-> RDot(At[a], At[b])]]), [a \in 1..Len(At) |-> RDot(At[a], [k \in 1..n |-> RMul(w[k], rows[k].v)])])
(* Do the rows determine the spline?  (Schoenberg and Whitney) *)
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF REq(x, Head(s)) THEN s ELSE IF RLt(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), Sorted(Tail(s)))
Four(x) == <<x, x, x, x>>
RECURSIVE Supports(_, _, _, _)      \* a point of its own inside the support of each basis function from the j-th to the last but one
Supports(ts, xs, j, i) ==
    IF j = Len(ts) - 4 THEN TRUE
    ELSE IF i >= Len(xs) THEN FALSE
    ELSE IF RLe(xs[i], ts[j]) THEN Supports(ts, xs, j, i + 1)
    ELSE RLt(xs[i], ts[j + 4]) /\ Supports(ts, xs, j + 1, i + 1)
Determined(rows, cap, pts) ==
    LET xs == TLCEval(Sorted([k \in 1..Len(rows) |-> RDiv(rows[k].q, cap)]))
        n == Len(xs)
        ts == Four(xs[1]) \o Interior(pts) \o Four(xs[n]) IN
    /\ n >= Len(ts) - 4
    /\ \A k \in 1..Len(ts) - 7 : RLt(ts[3 + k], ts[4 + k])
    /\ RLt(xs[1], ts[6]) /\ RLt(ts[Len(ts) - 5], xs[n]) /\ Supports(ts, xs, 2, 2)
Curve(rows, cap, pts) ==
    LET c == TLCEval(Fit(rows, cap, pts)) IN IF c = <<>> THEN <<>> ELSE [k \in 1..Len(pts) |-> RDot(c, Basis(Interior(pts), pts[k]))]

(* Capacity during charge of one cycle, in A-h, from its current.  The rows end with the first one of the next cycle *)
RECURSIVE Charge(_, _, _)
Charge(rows, k, sum) ==
    IF k > Len(rows) THEN <<>>
    ELSE LET s == RAdd(sum, RMul(RDiv(RAdd(rows[k - 1].i, rows[k].i), 7200), RSub(rows[k].t, rows[k - 1].t))) IN <<s>> \o Charge(rows, k + 1, s)
RECURSIVE Top(_)
Top(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], Top(Tail(s)))
ChargeOf(qs) ==
    LET up == Top(qs)
        down == Top([k \in 1..Len(qs) |-> RNeg(qs[k])]) IN
    IF RLt(up, down) THEN RAdd(qs[Len(qs)], down) ELSE up
Capacity(rows) == IF Len(rows) < 3 THEN "nan" ELSE ChargeOf(Charge(rows, 2, R(0)))
(* Rows of the cycle which starts at k: up to the first row of the next cycle *)
RECURSIVE Until(_, _, _)
Until(rows, k, j) == IF j > Len(rows) THEN <<>> ELSE IF rows[j].c # rows[k].c THEN <<rows[j]>> ELSE <<rows[j]>> \o Until(rows, k, j + 1)
Starts(rows) == SelectSeq([k \in 1..Len(rows) |-> k], LAMBDA k : k = 1 \/ rows[k].c # rows[k - 1].c)
Capacities(rows) == LET s == Starts(rows) IN [k \in 1..Len(s) |-> Capacity(Until(rows, s[k], s[k]))]
Measured(d) == IF d.cycles # <<>> THEN d.cycles[1] ELSE Capacities(d.raw[1])
Known(caps) == SelectSeq(caps, LAMBDA c : RIsNum(c))
Largest(d) == LET k == Known(Measured(d)) IN IF k = <<>> THEN "nan" ELSE Top(k)
(* Data which are refused: no time series, or no cycle that samples the required part of the capacity *)
Accepted(d, cap, req) == d.raw # <<>> /\ LET q == Largest(d) IN RIsNum(q) /\ RLe(req, RDiv(q, cap))

Init == ds = <<>>
Load(d) == ds' = Append(ds, d)
Extracted == UNCHANGED ds
=============================================================================
