----------------------------- MODULE MCIsolate -----------------------------
(* A caller with two objects, a and u, and users which accumulate: made from *)
(* a, given u at each step.  With Shares = TRUE a user goes on looking at    *)
(* the caller's a instead of a copy of its own, and with Common = TRUE all   *)
(* users accumulate in the same place: both must be found out by Alone.      *)
EXTENDS Isolate, TLC
CONSTANTS Depth, MaxUsers, Shares, Common
VARIABLES own, acc, n
mvars == <<ivars, own, acc, n>>
MCInit == /\ store = <<[n |-> "a", ver |-> 1, val |-> 1], [n |-> "u", ver |-> 2, val |-> 5]>> /\ users = <<>> /\ seen = <<>> /\ nver = 2
          /\ own = <<>> /\ acc = <<>> /\ n = 0
Val(x) == store[At(x)].val
Place(k) == IF Common THEN 1 ELSE k
Do ==
    \/ \E x \in {"a", "u"} : Change(x, Val(x) + 10 * nver) /\ UNCHANGED <<own, acc>>
    \/ /\ Len(users) < MaxUsers /\ Make("user", <<"a">>) /\ own' = Append(own, Val("a"))
       /\ acc' = IF Common /\ acc # <<>> THEN Append([acc EXCEPT ![1] = 0], 0) ELSE Append(acc, 0)
    \/ \E k \in 1..Len(users) :
          LET v == 2 * acc[Place(k)] + (IF Shares THEN Val("a") ELSE own[k]) + Val("u") IN
          Operate(k, "step", <<"u">>, <<v>>) /\ acc' = [acc EXCEPT ![Place(k)] = v] /\ UNCHANGED own
MCNext == n < Depth /\ n' = n + 1 /\ Do
MCSpec == MCInit /\ [][MCNext]_mvars
=============================================================================
