----------------------------- MODULE Simulator -----------------------------
(* Simulators of a cell.  The model of the cell is a small one in integer    *)
(* arithmetic, in which every quantity influences every other, so that any   *)
(* difference in the order of events or in what is handed over shows.        *)
(*                                                                           *)
(* Inputs, states and outputs are containers (sequences of [k, v]).  Each    *)
(* field has one row per member of the batch, or one row for all of them.    *)
(* Health is a column p.                                                     *)
EXTENDS Sequences, Integers, Check
LOCAL INSTANCE TLC
LOCAL INSTANCE Num
C == INSTANCE Containers WITH cs <- <<>>, as <- <<>>
VARIABLES sims     \* [p, x, u, m: current health, state, inputs, measurement; keep; hp, hx, hu, hm: histories]

N == 997
Mod(x) == x % N
Rows(m, B) == [b \in 1..B |-> C!RowOf(m, b)]
FieldOf(c, k) == c[CHOOSE i \in 1..Len(c) : c[i].k = k].v
HasF(c, k) == \E i \in 1..Len(c) : c[i].k = k /\ c[i].v # <<>>
Max2(a, b) == IF a > b THEN a ELSE b
Val(c, k, b) == C!RowOf(FieldOf(c, k), b)[1]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Weighted(w) == SumTo([j \in 1..Len(w) |-> w[j] * j], Len(w))

(* The model: states have fields s, q (or absent), w; outputs terminal_voltage and e; inputs time, current, .. *)
Fields(n, F(_)) == TLCEval([b \in 1..n |-> F(b)])
Evolve1(p, x, u0, u1) ==
    LET n == Max2(Max2(Len(p), C!BatchOf(x)), Max2(C!BatchOf(u0), C!BatchOf(u1)))
        i0(b) == Val(u0, "current", b)
        i1(b) == Val(u1, "current", b)
        dt(b) == Val(u1, "time", b) - Val(u0, "time", b)
        s(b) == Mod(2 * Val(x, "s", b) + 3 * C!RowOf(p, b)[1] + 5 * i1(b) + 7 * i0(b) + 11 * dt(b))
        w(b) == C!RowOf(FieldOf(x, "w"), b) IN
    <<[k |-> "s", v |-> Fields(n, LAMBDA b : <<s(b)>>)],
      [k |-> "q", v |-> IF HasF(x, "q") THEN Fields(n, LAMBDA b : <<Mod(Val(x, "q", b) + Val(x, "s", b))>>) ELSE <<>>],
      [k |-> "w", v |-> Fields(n, LAMBDA b : [j \in 1..Len(w(b)) |-> Mod(w(b)[j] * j + s(b) + i0(b))])]>>
Volt(p, x, u, b) ==
    Mod(Val(x, "s", b) + 2 * Weighted(C!RowOf(FieldOf(x, "w"), b)) + C!RowOf(p, b)[1] * Val(u, "current", b) + (IF HasF(x, "q") THEN Val(x, "q", b) ELSE 0))
Measure(p, x, u, ne) ==
    LET n == Max2(Max2(Len(p), C!BatchOf(x)), C!BatchOf(u)) IN
    <<[k |-> "terminal_voltage", v |-> Fields(n, LAMBDA b : <<Volt(p, x, u, b)>>)],
      [k |-> "e", v |-> IF ne = 0 THEN <<>> ELSE Fields(n, LAMBDA b : [j \in 1..ne |-> Volt(p, x, u, b) + j])]>>
Degrade(kind, p, u, x, m) ==
    IF kind = "none" THEN p
    ELSE LET n == Max2(Len(p), C!BatchOf(m)) IN
         Fields(n, LAMBDA b : <<Mod(3 * C!RowOf(p, b)[1] + Val(m, "terminal_voltage", b) + Val(x, "s", b) + 13 * Val(u, "current", b))>>)

---------------------------------------------------------------------------
Init == sims = <<>>
New(p, x, u, ne, kind, keep) ==
    LET m == Measure(p, x, u, ne) IN
    sims' = Append(sims, [p |-> p, x |-> x, u |-> u, m |-> m, ne |-> ne, kind |-> kind, keep |-> keep,
                          hp |-> IF keep THEN <<p>> ELSE <<>>, hx |-> IF keep THEN <<x>> ELSE <<>>,
                          hu |-> IF keep THEN <<u>> ELSE <<>>, hm |-> IF keep THEN <<m>> ELSE <<>>])
After(S, u) ==
    LET x1 == Evolve1(S.p, S.x, S.u, u)
        m1 == Measure(S.p, x1, u, S.ne)
        p1 == Degrade(S.kind, S.p, u, x1, m1) IN
    TLCEval([S EXCEPT !.p = p1, !.x = x1, !.u = u, !.m = m1,
                      !.hp = IF S.keep THEN Append(@, p1) ELSE @, !.hx = IF S.keep THEN Append(@, x1) ELSE @,
                      !.hu = IF S.keep THEN Append(@, u) ELSE @, !.hm = IF S.keep THEN Append(@, m1) ELSE @])
RECURSIVE AfterAll(_, _)
AfterAll(S, us) == IF us = <<>> THEN S ELSE AfterAll(After(S, Head(us)), Tail(us))
Step(i, u) == sims' = [sims EXCEPT ![i] = After(@, u)]
Evolve(i, us) == sims' = [sims EXCEPT ![i] = AfterAll(@, us)]
CallerWrites == UNCHANGED sims     \* whatever the caller does to the objects it handed over

(* Tables: one row per record and member, by record first *)
BatchSize(S) == C!BatchOf(S.m)
RowOfTable(S, k, b) == <<b - 1>> \o Flat([i \in 1..Len(S.hu[k]) |-> IF S.hu[k][i].v = <<>> THEN <<>> ELSE C!RowOf(S.hu[k][i].v, b)])
                                \o Flat([i \in 1..Len(S.hx[k]) |-> IF S.hx[k][i].v = <<>> THEN <<>> ELSE C!RowOf(S.hx[k][i].v, b)])
                                \o Flat([i \in 1..Len(S.hm[k]) |-> IF S.hm[k][i].v = <<>> THEN <<>> ELSE C!RowOf(S.hm[k][i].v, b)])
Table(S) == LET B == BatchSize(S) IN TLCEval([r \in 1..(B * Len(S.hu)) |-> RowOfTable(S, ((r - 1) \div B) + 1, ((r - 1) % B) + 1)])
Columns(S) == <<"batch">> \o C!NamesOf(S.hu[1]) \o C!NamesOf(S.hx[1]) \o C!NamesOf(S.hm[1])
Renamed(n) == CASE n = "time" -> "test_time" [] n = "terminal_voltage" -> "voltage" [] OTHER -> n
(* The dataset of one member *)
Dataset(S, b) == TLCEval([k \in 1..Len(S.hu) |-> Tail(RowOfTable(S, k, b))])
DataColumns(S) == LET c == Tail(Columns(S)) IN [i \in 1..Len(c) |-> Renamed(c[i])]

---------------------------------------------------------------------------
HistoriesMatch == \A i \in 1..Len(sims) : LET S == sims[i] IN
    S.keep => /\ Len(S.hu) = Len(S.hx) /\ Len(S.hu) = Len(S.hm) /\ Len(S.hu) = Len(S.hp)
              /\ S.hu[Len(S.hu)] = S.u /\ S.hx[Len(S.hx)] = S.x /\ S.hm[Len(S.hm)] = S.m /\ S.hp[Len(S.hp)] = S.p
              /\ \A k \in 1..(Len(S.hu) - 1) : /\ S.hx[k+1] = Evolve1(S.hp[k], S.hx[k], S.hu[k], S.hu[k+1])
                                               /\ S.hm[k+1] = Measure(S.hp[k], S.hx[k+1], S.hu[k+1], S.ne)
              /\ \A r \in 1..Len(Table(S)) : Len(Table(S)[r]) = Len(Columns(S))
HistoriesGrow == [][\A i \in 1..Len(sims) : sims[i].hx = SubSeq(sims'[i].hx, 1, Len(sims[i].hx)) /\ sims[i].hm = SubSeq(sims'[i].hm, 1, Len(sims[i].hm))
                    /\ sims[i].hu = SubSeq(sims'[i].hu, 1, Len(sims[i].hu)) /\ sims[i].hp = SubSeq(sims'[i].hp, 1, Len(sims[i].hp))]_sims
=============================================================================
