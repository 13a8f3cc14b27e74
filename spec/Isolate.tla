------------------------------ MODULE Isolate ------------------------------
(* Users (simulators, estimators, losses, single calls of a model) of        *)
(* objects which belong to a caller.                                         *)
(*                                                                           *)
(* The caller holds objects by name, each in some version; it may change     *)
(* them at any time, which makes a new version.  A user is made from the     *)
(* versions of that moment, and is then given others with each operation.    *)
(* Its answers are a function of these versions alone, in their order: it    *)
(* does not matter what became of the objects since, what other users did,   *)
(* or whether there are any.  Nothing but the caller changes an object.      *)
EXTENDS Sequences, Integers, FiniteSets, Check
LOCAL INSTANCE Num
LOCAL INSTANCE TLC
VARIABLES store,  \* sequence of [n, ver, val]: the objects of the caller
          users,  \* the history of each user: a sequence of [op, vs]
          seen,   \* answers: [h, a]
          nver    \* the number of versions made so far
ivars == <<store, users, seen, nver>>

IInit == store = <<>> /\ users = <<>> /\ seen = <<>> /\ nver = 0
At(n) == CHOOSE i \in 1..Len(store) : store[i].n = n
Versions(names) == [i \in 1..Len(names) |-> store[At(names[i])].ver]

Hold(n, val) == store' = Append(store, [n |-> n, ver |-> nver + 1, val |-> val]) /\ nver' = nver + 1 /\ UNCHANGED <<users, seen>>
Duplicate(n, of) == store' = Append(store, [store[At(of)] EXCEPT !.n = n]) /\ UNCHANGED <<users, seen, nver>>
Change(n, val) ==
    store' = [store EXCEPT ![At(n)] = [@ EXCEPT !.val = val, !.ver = nver + 1]] /\ nver' = nver + 1 /\ UNCHANGED <<users, seen>>
Make(kind, names) == users' = Append(users, <<[op |-> kind, vs |-> Versions(names)]>>) /\ UNCHANGED <<store, seen, nver>>
Operate(u, op, names, a) ==
    LET h == Append(users[u], [op |-> op, vs |-> Versions(names)]) IN
    users' = [users EXCEPT ![u] = h] /\ seen' = Append(seen, [h |-> h, a |-> a]) /\ UNCHANGED <<store, nver>>

---------------------------------------------------------------------------
Agrees(a, b) == SameNest(a, b, "1e-9", 1)
Alone == \A i, j \in 1..Len(seen) : seen[i].h = seen[j].h => Agrees(seen[i].a, seen[j].a)
OnlyTheCaller == [][users' # users => store' = store]_ivars
=============================================================================
