------------------------------- MODULE Interp -------------------------------
(* Interpolation of a tabulated quantity, for every declared style.          *)
(* The table is ys over xs (ascending); a table of one value is a constant.  *)
LOCAL INSTANCE Num
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

Even(n) == [i \in 1..n |-> RDiv(i - 1, n - 1)]       \* evenly spread over [0, 1]
NaN == R("nan")

(* number of points at or below x / strictly below x *)
RECURSIVE CountLe(_, _, _), CountLt(_, _, _)
CountLe(xs, x, i) == IF i > Len(xs) \/ ~RLe(xs[i], x) THEN i - 1 ELSE CountLe(xs, x, i + 1)
CountLt(xs, x, i) == IF i > Len(xs) \/ ~RLt(xs[i], x) THEN i - 1 ELSE CountLt(xs, x, i + 1)
Clamp(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i

Linear(xs, ys, x) ==
    LET i == Clamp(CountLe(xs, x, 1), 1, Len(xs) - 1) IN
    RAdd(ys[i], RMul(RSub(ys[i+1], ys[i]), RDiv(RSub(x, xs[i]), RSub(xs[i+1], xs[i]))))
(* the closest point; a tie goes to the lower one, or to the upper one if up *)
Nearest(xs, ys, x, up) ==
    LET i == Clamp(CountLe(xs, x, 1), 1, Len(xs) - 1)
        a == RAbs(RSub(x, xs[i]))
        b == RAbs(RSub(xs[i+1], x)) IN
    IF RLt(a, b) \/ (~up /\ REq(a, b)) THEN ys[i] ELSE ys[i+1]
Previous(xs, ys, x) == LET i == CountLe(xs, x, 1) IN IF i = 0 THEN NaN ELSE ys[i]
Next(xs, ys, x) == LET i == CountLt(xs, x, 1) IN IF i = Len(xs) THEN NaN ELSE ys[i+1]
Zero(xs, ys, x) == LET i == CountLe(xs, x, 1) IN IF i = 0 THEN ys[1] ELSE ys[i]

(* Interpolating splines: the piecewise polynomial of degree d which is d-1  *)
(* times continuously differentiable at the given knots and passes through   *)
(* all points, as a combination of 1, x, .., x^d and (x - knot)+^d           *)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN R(1) ELSE RMul(x, Pow(x, n - 1))
Plus(x) == IF RLt(x, 0) THEN R(0) ELSE x
Knots(d, xs) ==
    IF d = 3 THEN SubSeq(xs, 3, Len(xs) - 2)                                          \* not-a-knot
    ELSE [i \in 1..(Len(xs) - 3) |-> RDiv(RAdd(xs[i+1], xs[i+2]), 2)]                 \* midpoints, without the outer ones
Basis(d, kn, x) == [j \in 1..(d + 1 + Len(kn)) |-> IF j <= d + 1 THEN Pow(x, j - 1) ELSE Pow(Plus(RSub(x, kn[j - d - 1])), d)]
SplineCoef(d, xs, ys) == LET kn == Knots(d, xs) IN RSolve([i \in 1..Len(xs) |-> Basis(d, kn, xs[i])], ys)
Degree(style) == CASE style = "quadratic" -> 2 [] style = "cubic" -> 3 [] OTHER -> 0
IsSpline(style) == Degree(style) > 0

(* A table prepared for evaluation *)
Table(ys, pin, style) ==
    LET xs == IF pin = <<>> THEN Even(Len(ys)) ELSE pin IN
    TLCEval([xs |-> IF Len(ys) = 1 THEN <<0>> ELSE xs, ys |-> ys, style |-> style,
             coef |-> IF Len(ys) > 1 /\ IsSpline(style) THEN SplineCoef(Degree(style), xs, ys) ELSE <<>>])
Value(t, x) ==
    IF Len(t.ys) = 1 THEN R(t.ys[1])
    ELSE CASE t.style \in {"linear", "slinear"} -> Linear(t.xs, t.ys, x)
           [] t.style = "nearest" -> R(Nearest(t.xs, t.ys, x, FALSE))
           [] t.style = "nearest-up" -> R(Nearest(t.xs, t.ys, x, TRUE))
           [] t.style = "previous" -> R(Previous(t.xs, t.ys, x))
           [] t.style = "next" -> R(Next(t.xs, t.ys, x))
           [] t.style = "zero" -> R(Zero(t.xs, t.ys, x))
           [] IsSpline(t.style) -> RDot(t.coef, Basis(Degree(t.style), Knots(Degree(t.style), t.xs), x))
=============================================================================
