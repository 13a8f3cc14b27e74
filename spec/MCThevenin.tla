----------------------------- MODULE MCThevenin -----------------------------
(* A batch runs next to its members, each on its own.                        *)
EXTENDS Thevenin, TLC
CONSTANTS Depth, Many
VARIABLES n, moved, first
Shared(x) == <<x>>
Both(x, y) == <<x, y>>
Sets(x, y) == IF Many THEN {Shared(x), Both(x, y)} ELSE {Both(x, y)}
Two(x, y) == {Shared(x), Both(x, y)}
Elem(s1, s2, t1, t2, r) == {[s |-> s, t |-> t, ref |-> r] : s \in Two(s1, s2), t \in {Shared(t1)}}
Batches == UNION {{[B |-> 2, cap |-> cap, mass |-> <<<<"0.1">>>>, cp |-> <<<<"1150">>>>, h |-> h, area |-> <<<<"1">>>>, ocv |-> ocv, r |-> <<r0, r0>>, c |-> <<cc>>,
             iso |-> FALSE, x |-> [soc |-> soc, temp |-> <<<<"298">>>>, eta |-> eta]] :
             r0 \in Elem(<<"0.01", "0.02">>, <<"0.03", "0.01">>, <<"0", "0.001">>, <<"0.1">>, <<<<"298">>, <<"300">>>>),
             cc \in Elem(<<"10", "10">>, <<"30", "5">>, <<"0">>, <<"1">>, <<<<"298">>>>)} :
    cap \in Two(<<"1">>, <<"2">>), h \in Sets(<<"12">>, <<"5">>), ocv \in Two(<<"3", "1">>, <<"2", "0.5">>), soc \in Two(<<"0.5">>, <<"0.2">>), eta \in Two(<<"0.1">>, <<"-0.2">>)}
Alone(c, b) ==
    LET one(f) == <<Pick(f, b)>>
        elem(f) == [s |-> one(f.s), t |-> one(f.t), ref |-> one(f.ref)] IN
    [c EXCEPT !.B = 1, !.cap = one(c.cap), !.h = one(c.h), !.ocv = one(c.ocv), !.r = [k \in 1..Len(c.r) |-> elem(c.r[k])], !.c = [k \in 1..Len(c.c) |-> elem(c.c[k])],
              !.x = [soc |-> one(c.x.soc), temp |-> one(c.x.temp), eta |-> one(c.x.eta)]]
First == [t |-> <<<<"0">>>>, i |-> <<<<"0">>>>, amb |-> <<<<"298">>>>]
MCInit == \E c \in Batches : ths = <<[c |-> c, p |-> First], [c |-> Alone(c, 1), p |-> First], [c |-> Alone(c, 2), p |-> First]>> /\ n = 0 /\ moved = <<0, 0>> /\ first = [b \in 1..2 |-> Pick(c.x.soc, b)[1]]
Currents == {<<<<"1">>>>, <<<<"-2">>, <<"0">>>>}
InputOf(u, b) == [t |-> u.t, i |-> <<Pick(u.i, b)>>, amb |-> u.amb]
MCNext == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED first
          /\ \E i \in Currents, dt \in {0, 60} :
               LET u == [t |-> <<<<RAdd(ths[1].p.t[1][1], dt)>>>>, i |-> i, amb |-> <<<<"300">>>>] IN
               /\ ths' = TLCEval([k \in 1..3 |-> LET v == IF k = 1 THEN u ELSE InputOf(u, k - 1) IN [c |-> [ths[k].c EXCEPT !.x = StepOf(ths[k].c, ths[k].p, v)], p |-> v]])
               /\ moved' = [b \in 1..2 |-> RAdd(moved[b], RMul(Pick(i, b)[1], dt))]
Member(b) == LET a == ths[1].c.x d == ths[b + 1].c.x IN
    SameNest(d.soc[1], Pick(a.soc, b), "1e-25", 1) /\ SameNest(d.temp[1], Pick(a.temp, b), "1e-25", 1) /\ SameNest(d.eta[1], Pick(a.eta, b), "1e-25", 1)
MembersAreAlone == \A b \in 1..2 : Member(b) /\ RClose(VoltOf(ths[1].c, b, ths[1].p), VoltOf(ths[b + 1].c, 1, ths[b + 1].p), "1e-25", 1)
(* Charging current is positive for the user: it raises the state of charge *)
ChargeCounts == \A b \in 1..2 :
    RClose(RMul(RMul(3600, Pick(ths[1].c.cap, b)[1]), RSub(Pick(ths[1].c.x.soc, b)[1], first[b])), moved[b], "1e-20", 1)
MCSpec == MCInit /\ [][MCNext]_<<ths, n, moved, first>>
=============================================================================
