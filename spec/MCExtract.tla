----------------------------- MODULE MCExtract ------------------------------
(* Measurements arrive row by row; after each the curve and the capacity can *)
(* be extracted.                                                             *)
EXTENDS Extract, TLC
CONSTANTS Most, Vs, Is
VARIABLES rows
Pts == <<"0", "0.45", "1">>
Grid == <<"0", "0.2", "0.4", "0.5", "0.7", "0.85", "1", "0.3">>
Truth(q) == RSum(<<3, RMul("0.7", q), RMul("-0.2", RMul(q, q)), RMul("0.9", Cube(q)), IF RLt("0.45", q) THEN RMul(2, Cube(RSub(q, "0.45"))) ELSE 0>>)
MCInit == rows = <<>> /\ ds = <<>>
MCNext == /\ Len(rows) < Most
          /\ \E v \in Vs, i \in Is :
               LET q == Grid[Len(rows) + 1]
                   r == [c |-> 1, t |-> 1800 * Len(rows), i |-> IF i = "m" THEN "-0.5" ELSE i, v |-> IF v = "truth" THEN Truth(q) ELSE v, q |-> q] IN
               /\ rows' = Append(rows, r) /\ ds' = <<[raw |-> <<rows'>>, cycles |-> <<>>]>>
Scaled(k) == [j \in 1..Len(rows) |-> [rows[j] EXCEPT !.i = RMul(k, rows[j].i), !.q = RMul(k, rows[j].q)]]
Turned == [j \in 1..Len(rows) |-> rows[Len(rows) + 1 - j]]
Close(a, b) == IF a = <<>> THEN b = <<>> ELSE SameNest(a, b, "1e-10", 1)
Shown == Len(rows) >= 5 /\ Determined(rows, 1, Pts)
DeterminedIsSolvable == Shown => Fit(rows, 1, Pts) # <<>>
AllTrue == \A j \in 1..Len(rows) : REq(rows[j].v, Truth(rows[j].q))
Exact == Shown /\ AllTrue => Close(Curve(rows, 1, Pts), [k \in 1..3 |-> Truth(Pts[k])])
ScaleFree == Shown /\ (\A j \in 1..Len(rows) : RLt("0.1", RAbs(rows[j].i))) => Close(Curve(rows, 1, Pts), Curve(Scaled(3), 3, Pts))
OrderFree == Shown => Close(Curve(rows, 1, Pts), Curve(Turned, 1, Pts))
(* A row which was measured at rest (the only one) is met almost exactly *)
RestWins == LET c == Fit(rows, 1, Pts) IN Shown /\ Len(rows) > 5 =>
    \A j \in 1..Len(rows) : REq(rows[j].i, 0) /\ (\A k \in 1..Len(rows) : k # j => ~REq(rows[k].i, 0)) =>
        RClose(RDot(c, Basis(Interior(Pts), rows[j].q)), rows[j].v, "1e-6", 1)
(* The capacity is no less than the charge between any two rows if the cell is only charged *)
CapacityCovers == LET c == Largest(ds[1]) IN Len(rows) >= 3 =>
    IF \A j \in 1..Len(rows) : RLe(0, rows[j].i) THEN REq(c, Charge(rows, 2, R(0))[Len(rows) - 1]) ELSE RIsNum(c) /\ RLe(0, c)
ShortRefused == rows # <<>> /\ Len(rows) < 3 => ~Accepted(ds[1], 1, 0)
MCSpec == MCInit /\ [][MCNext]_<<rows, ds>>
=============================================================================
