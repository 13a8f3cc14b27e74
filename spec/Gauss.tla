------------------------------- MODULE Gauss -------------------------------
(* Random variables and conversions between coordinates.                     *)
(*   distribution: [kind, mean, cov]   kind is "gauss" or "delta"            *)
(*   conversion:   [op |-> "identity"]                                       *)
(*                 [op |-> "linear", m, b]   m a scalar (as <<x>>) or matrix *)
(*                 [op |-> "abs", idx]       idx the positions, <<0>> if all *)
(*                 [op |-> "bend", idx]      a smooth curve, made by a user  *)
EXTENDS Mat, Check
LOCAL INSTANCE TLC
VARIABLES ds       \* distributions made so far

Scalar(o) == ~IsSeq(o.m)
Bias(o, k) == IF Len(o.b) = 1 THEN o.b[1] ELSE o.b[k]
Touched(o, k) == o.idx = <<0>> \/ \E i \in 1..Len(o.idx) : o.idx[i] = k
Sign(x) == IF RLt(x, 0) THEN -1 ELSE 1

(* The curve x + sqrt(1 + x) - 1 for x >= 0, and the same mirrored for x < 0; t = sqrt(1 + |x|) *)
Mirror(x, v) == RMul(Sign(x), v)
Bent(x) == Mirror(x, RAdd(RAbs(x), RSub(RSqrt(RAdd(1, RAbs(x))), 1)))
RootOf(y) == RMul("0.5", RSub(RSqrt(RAdd(9, RMul(4, RAbs(y)))), 1))        \* t^2 + t = 2 + |y|
Straight(y) == Mirror(y, RSub(RMul(RootOf(y), RootOf(y)), 1))
BendSlope(t) == RAdd(1, RDiv("0.5", t))
OnTouched(o, x, F(_), G(_)) == Vec(Len(x), LAMBDA k : IF Touched(o, k) THEN F(x[k]) ELSE G(x[k]))
Same(x) == x
One(x) == 1

(* Points *)
Fwd(o, x) ==
    CASE o.op = "identity" -> x
      [] o.op = "linear" /\ Scalar(o) -> Vec(Len(x), LAMBDA k : RAdd(RMul(o.m, x[k]), Bias(o, k)))
      [] o.op = "linear" -> LET y == VM(x, o.m) IN Vec(Len(y), LAMBDA k : RAdd(y[k], Bias(o, k)))
      [] o.op = "abs" -> Vec(Len(x), LAMBDA k : IF Touched(o, k) THEN RAbs(x[k]) ELSE x[k])
      [] o.op = "bend" -> OnTouched(o, x, Bent, Same)
Back(o, y) ==
    CASE o.op = "linear" /\ Scalar(o) -> Vec(Len(y), LAMBDA k : RDiv(RSub(y[k], Bias(o, k)), o.m))
      [] o.op = "linear" -> VM(Vec(Len(y), LAMBDA k : RSub(y[k], Bias(o, k))), PInv(o.m))
      [] o.op = "bend" -> OnTouched(o, y, Straight, Same)
      [] OTHER -> y
(* Derivative at a point, as a matrix which multiplies differences from the right *)
Slope(o, x) ==
    CASE o.op = "identity" -> Eye(Len(x))
      [] o.op = "linear" /\ Scalar(o) -> MScale(o.m, Eye(Len(x)))
      [] o.op = "linear" -> o.m
      [] o.op = "abs" -> DiagM(Vec(Len(x), LAMBDA k : IF Touched(o, k) THEN Sign(x[k]) ELSE 1))
      [] o.op = "bend" -> DiagM(OnTouched(o, x, LAMBDA v : BendSlope(RSqrt(RAdd(1, RAbs(v)))), One))
BackSlope(o, y) ==
    CASE o.op = "linear" /\ Scalar(o) -> MScale(RDiv(1, o.m), Eye(Len(y)))
      [] o.op = "linear" -> PInv(o.m)
      [] o.op = "bend" -> DiagM(OnTouched(o, y, LAMBDA v : RDiv(1, BendSlope(RootOf(v))), One))
      [] OTHER -> Eye(Len(y))
Spread(J, C) == MMul(MMul(T(J), C), J)
FwdCov(o, C, x) == Spread(Slope(o, x), C)
BackCov(o, C, y) == Spread(BackSlope(o, y), C)
Convert(o, d) == [kind |-> d.kind, mean |-> Fwd(o, d.mean), cov |-> FwdCov(o, d.cov, d.mean)]
Invert(o, d) == [kind |-> d.kind, mean |-> Back(o, d.mean), cov |-> BackCov(o, d.cov, d.mean)]

RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Joined(Tail(s))
Combined(s) == [kind |-> s[1].kind, mean |-> Joined([i \in 1..Len(s) |-> s[i].mean]), cov |-> Blocks([i \in 1..Len(s) |-> s[i].cov])]
(* A distribution can be made when the shapes fit *)
Fits(mean, cov) == Len(mean) > 0 /\ Len(cov) = Len(mean) /\ \A i \in 1..Len(cov) : IsSeq(cov[i]) /\ Len(cov[i]) = Len(mean)

---------------------------------------------------------------------------
Init == ds = <<>>
Make(d) == ds' = Append(ds, d)
MakeConverted(i, o, inv) == ds' = Append(ds, TLCEval(IF inv THEN Invert(o, ds[i]) ELSE Convert(o, ds[i])))
MakeCombined(s) == ds' = Append(ds, TLCEval(Combined([k \in 1..Len(s) |-> ds[s[k]]])))
Refused == UNCHANGED ds
CallerWrites == UNCHANGED ds

Near(x, y) == SameNest(x, y, "1e-20", "1")
SameDist(d, e) == d.kind = e.kind /\ Near(d.mean, e.mean) /\ Near(d.cov, e.cov)
Valid(d) == Near(d.cov, T(d.cov)) /\ PosSemi(d.cov, "1e-15")
=============================================================================
