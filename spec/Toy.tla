-------------------------------- MODULE Toy --------------------------------
(* A small non-linear cell, with which estimators and losses are specified.  *)
(*   layout:  [q (0 or 1), nw, nT (0 or 1), ne]                              *)
(*   health:  [a, v (sequence), b, z];  b is the parameter "sub.b"           *)
(*   state:   s, q (if present), w_1 ..    input: time, current, temperature *)
(*   output:  voltage, e_1 ..                                                *)
EXTENDS Mat, Check
LOCAL INSTANCE TLC

(* Health parameters by name *)
GetOne(h, nm) == CASE nm = "a" -> <<h.a>> [] nm = "v" -> h.v [] nm = "sub.b" -> <<h.b>> [] nm = "z" -> <<h.z>>
PutOne(h, nm, x) == CASE nm = "a" -> [h EXCEPT !.a = x[1]] [] nm = "v" -> [h EXCEPT !.v = x]
                      [] nm = "sub.b" -> [h EXCEPT !.b = x[1]] [] nm = "z" -> [h EXCEPT !.z = x[1]]
(* The cell *)
Dimx(lay) == 1 + lay.q + lay.nw
Vj(h, j) == h.v[((j - 1) % Len(h.v)) + 1]
Wat(lay, x, j) == x[1 + lay.q + j]
P2(a, b) == RMul(a, b)
P3(a, b, c) == RMul(a, RMul(b, c))
P4(a, b, c, d) == RMul(RMul(a, b), RMul(c, d))
Evolve(lay, h, x, u0, u1) ==
    LET dt == RSub(u1[1], u0[1])
        s == x[1] IN
    TLCEval(<<RSum(<<s, P4("0.1", h.a, dt, RAdd(u1[2], P2("0.5", u0[2]))), P4("0.02", h.b, s, s), P2("-0.05", s)>>)>>
    \o (IF lay.q = 1 THEN <<RAdd(P2("0.9", x[2]), P3("0.1", s, h.b))>> ELSE <<>>)
    \o [j \in 1..lay.nw |-> RSum(<<P2(Wat(lay, x, j), RAdd("0.7", P2("0.05", Vj(h, j)))), P3("0.2", h.a, u0[2]), P2("0.05", j)>>)])
Volt(lay, h, x, u) ==
    RSum(<<3, h.z, P2(x[1], RAdd(1, P2("0.2", h.a))), P3("0.3", h.b, u[2]), P2("0.1", h.v[1]),
           IF lay.q = 1 THEN P2("0.5", x[2]) ELSE 0, IF lay.nT = 1 THEN P2("0.01", u[3]) ELSE 0>>
         \o [j \in 1..lay.nw |-> P2(Wat(lay, x, j), Vj(h, j))])
Output(lay, h, x, u) ==
    LET V == Volt(lay, h, x, u) IN TLCEval(<<V>> \o [k \in 1..lay.ne |-> RSum(<<P4("0.2", k, V, h.b), x[1], P2("0.3", Vj(h, k))>>)])
Degrade(deg, lay, h, u, x, V) ==
    IF deg = "none" THEN h
    ELSE TLCEval([a |-> RAdd(P2(h.a, RSub(1, P3("0.01", u[2], u[2]))), P2("0.002", V)),
          v |-> [j \in 1..Len(h.v) |-> RSum(<<h.v[j], P3("0.003", x[1], j), P2("0.001", u[1])>>)],
          b |-> RSub(h.b, P3("0.001", V, h.b)), z |-> RAdd(h.z, P2("0.01", u[2]))])
=============================================================================
