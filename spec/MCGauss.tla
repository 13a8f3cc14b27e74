------------------------------ MODULE MCGauss ------------------------------
EXTENDS Gauss, TLC
CONSTANTS Depth
VARIABLES n
D(m, c) == [kind |-> "gauss", mean |-> m, cov |-> c]
Starts == {D(<<2>>, <<<<3>>>>), D(<<-1, 4>>, <<<<2, 1>>, <<1, 5>>>>), D(<<0, -2, 1>>, <<<<4, 1, 0>>, <<1, 3, 1>>, <<0, 1, 2>>>>), D(<<-3, 3>>, <<<<1, 1>>, <<1, 1>>>>),
           [kind |-> "delta", mean |-> <<5, -7>>, cov |-> <<<<0, 0>>, <<0, 0>>>>]}
L(m, b) == [op |-> "linear", m |-> m, b |-> b]
OpSeq == <<[op |-> "identity"], L("-2.5", <<3>>), L("0.5", <<1, 2>>), L(<<<<1, 2>>, <<0, -4>>>>, <<"0.5", -1>>), L(<<<<0, 1>>, <<1, 0>>>>, <<0>>),
        L(<<<<2, 1, 0>>, <<1, 0, 1>>>>, <<1, 2, 3>>), L(<<<<1, 0>>, <<2, 1>>, <<0, 3>>>>, <<0, 0>>), L(<<<<3>>>>, <<-1>>),
        [op |-> "abs", idx |-> <<0>>], [op |-> "abs", idx |-> <<1>>], [op |-> "abs", idx |-> <<2, 1>>], [op |-> "bend", idx |-> <<0>>], [op |-> "bend", idx |-> <<2>>]>>
Apply(o, d) == CASE o.op = "linear" /\ ~Scalar(o) -> Len(o.m) = Len(d.mean)
                 [] o.op = "linear" -> Len(o.b) \in {1, Len(d.mean)}
                 [] o.op \in {"abs", "bend"} -> \A i \in 1..Len(o.idx) : o.idx[i] <= Len(d.mean)
                 [] OTHER -> TRUE
Unapply(o, d) == CASE o.op = "linear" /\ ~Scalar(o) -> Cols(o.m) = Len(d.mean)
                   [] OTHER -> Apply(o, d)
MCInit == Init /\ n = 0
MCNext == /\ n < Depth /\ n' = n + 1
          /\ \/ \E d \in Starts : Make(d)
             \/ \E i \in 1..Len(ds), q \in 1..Len(OpSeq) : LET o == OpSeq[q] IN (Apply(o, ds[i]) /\ MakeConverted(i, o, FALSE)) \/ (Unapply(o, ds[i]) /\ MakeConverted(i, o, TRUE))
             \/ \E i, j \in 1..Len(ds) : ds[i].kind = ds[j].kind /\ Len(ds[i].mean) + Len(ds[j].mean) <= 5 /\ MakeCombined(<<i, j>>)
AllValid == \A i \in 1..Len(ds) : Valid(ds[i]) /\ (ds[i].kind = "delta" => Near(ds[i].cov, Zero(Len(ds[i].mean), Len(ds[i].mean))))
(* Forward and back is the identity wherever the conversion can be inverted *)
Invertible(o, d) == CASE o.op = "linear" /\ ~Scalar(o) -> Len(o.m) <= Cols(o.m)
                      [] o.op = "abs" -> \A k \in 1..Len(d.mean) : Touched(o, k) => RLe(0, d.mean[k])
                      [] OTHER -> TRUE
RoundTrip == Len(ds) > 0 => LET d == ds[Len(ds)] IN
    \A q \in 1..Len(OpSeq) : LET o == OpSeq[q] IN Apply(o, d) /\ Invertible(o, d) => SameDist(d, Invert(o, Convert(o, d)))
(* Linear conversions commute with mixing points, so they act on differences by their slope *)
SlopeIsDerivative == Len(ds) > 0 => LET d == ds[Len(ds)] IN
    \A q \in 1..Len(OpSeq) : LET o == OpSeq[q] IN Apply(o, d) =>
        \A k \in 1..Len(d.mean) : LET e == VScale("1e-25", Eye(Len(d.mean))[k]) IN
            (o.op = "abs" /\ RLt(RAbs(d.mean[k]), "1e-20")) \/
            SameNest(VSub(Fwd(o, VAdd(d.mean, e)), Fwd(o, d.mean)), VScale("1e-25", Slope(o, d.mean)[k]), "1e-8", "1e-25")
(* Combining keeps the parts *)
Parts == Len(ds) > 1 => LET a == ds[1] b == ds[Len(ds)] c == Combined(<<a, b>>) p == Len(a.mean) IN
    /\ SubSeq(c.mean, 1, p) = a.mean /\ SubSeq(c.mean, p + 1, Len(c.mean)) = b.mean
    /\ \A i, j \in 1..Len(c.mean) : (i <= p) # (j <= p) => REq(c.cov[i][j], 0)
MCSpec == MCInit /\ [][MCNext]_<<ds, n>>
=============================================================================
