------------------------------- MODULE Batch -------------------------------
(* A batch of cells.  Every member has a result of its own; evaluating the   *)
(* members together gives each of them that result, whichever quantities are *)
(* shared (one row for all members) or batched (one row per member), and a   *)
(* change of one member changes the result of no other.                      *)
EXTENDS Sequences, Integers, Check
LOCAL INSTANCE Num
VARIABLES alone,    \* results of the members on their own: a sequence of records of named rows
          size      \* members of the batch
Init == alone = <<>> /\ size = 1
Start(B) == alone' = <<>> /\ size' = B
Alone(result) == alone' = Append(alone, result) /\ UNCHANGED size
Renew(b, result) == alone' = [alone EXCEPT ![b] = result] /\ UNCHANGED size
Together == alone' = <<>> /\ UNCHANGED size
Evaluated == UNCHANGED <<alone, size>>

PickRow(m, b) == m[((b - 1) % Len(m)) + 1]
(* Does a table of results (a field has one row per member, or one for all) give member b its own result *)
Agrees(table, names, tol) ==
    Flat([k \in 1..Len(names) |->
        LET m == table[names[k]] IN
        IF ~IsSeq(m) \/ Len(m) \notin {1, size} THEN Mis("rows of " \o names[k], size, m)
        ELSE Flat([b \in 1..size |-> CNest(names[k] \o " of a member of the batch", alone[b][names[k]], PickRow(m, b), tol, "0.1")])])
=============================================================================
