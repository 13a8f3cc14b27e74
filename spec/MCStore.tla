------------------------------ MODULE MCStore ------------------------------
(* Every history of writers of one or two groups.  The ghost variable log    *)
(* has the steps which each group accepted, in order.                        *)
EXTENDS Store, TLC, Json
CONSTANTS Depth, Gen, Two
VARIABLES hist, log
Ops == {[step |-> s, cycle |-> c, resizable |-> z] : s \in {"full", "mean_var", "mean", "none"}, c \in {"full", "mean_cov", "none"}, z \in BOOLEAN}
Est(k) == [kind |-> "Gaussian", mean |-> <<ToString(k), ToString(-k)>>, cov |-> <<<<ToString(k + 1), "1">>, <<"1", ToString(k + 2)>>>>]
Entry(k, c) == [t |-> ToString(10 * k), c |-> c, s |-> Est(k), o |-> Est(k + 50)]
Meta(w) == [distribution |-> "Gaussian", of |-> w]
H(e) == hist' = Append(hist, e)
LogOf(g) == IF g \in DOMAIN log THEN log[g] ELSE <<>>
Grow == log' = [g \in 1..Len(st'.groups) |-> LogOf(g)]
Do ==
    \/ /\ Len(writers) < (IF Two THEN 2 ELSE 1)
       /\ \E o \in Ops, k \in {"a", "b"} : (Len(writers) = 0 => k = "a") /\ Create("f", k, o) /\ H([op |-> "create", file |-> "f", key |-> k, o |-> o]) /\ UNCHANGED log
    \/ \E w \in 1..Len(writers) : /\ ~writers[w].open /\ \A v \in 1..Len(writers) : ~writers[v].open    \* a file has one writer at a time
                                  /\ Open(w) /\ Grow /\ H([op |-> "open", w |-> w])
    \/ \E w \in 1..Len(writers) : writers[w].open /\ (Close(w) /\ H([op |-> "close", w |-> w]) /\ UNCHANGED log)
    \/ \E w \in 1..Len(writers), n \in {-1, 2}, m \in {-1, 1, 2} :
         /\ ~writers[w].ready
         \* adding a part to a group which has another one already is not a use of the library
         /\ writers[w].open => (groups[GroupOf(w)].meta # <<>> => PrepareRefused(w, n, m))
         /\ Prepare(w, n, m, Meta(w)) /\ H([op |-> "prepare", w |-> w, steps |-> n, cycles |-> m]) /\ Grow
    \/ \E w \in 1..Len(writers), c \in {0, 1, 3} :
         /\ writers[w].ready \/ ~writers[w].open
         /\ LET e == Entry(Len(hist), c) IN
            /\ AppendStep(w, e)
            /\ log' = IF AppendRefused(w, e) THEN log ELSE [log EXCEPT ![GroupOf(w)] = Append(@, e)]
            /\ H([op |-> "append", w |-> w, c |-> c])
MCInit == Init /\ hist = <<>> /\ log = <<>>
MCNext == Len(hist) < Depth /\ Do
MCSpec == MCInit /\ [][MCNext]_<<st, hist, log>>
View == <<st, log, Len(hist)>>

(* The steps of a group are the accepted ones, in order, with the detail chosen *)
StepsExact == \A g \in 1..Len(groups) : groups[g].step.what # "none" =>
    Read(groups[g], "step") = [i \in 1..Len(log[g]) |-> [t |-> log[g][i].t, s |-> AsRead(groups[g].step.what, log[g][i].s), o |-> AsRead(groups[g].step.what, log[g][i].o)]]
(* The cycles of a group are the first accepted step of each, in order of the cycles *)
Firsts(L) == {i \in 1..Len(L) : \A j \in 1..(i - 1) : L[j].c # L[i].c}
CyclesExact == \A g \in 1..Len(groups) : groups[g].cycle.what # "none" =>
    LET p == groups[g].cycle
        L == log[g] IN
    /\ Len(p.rows) <= Len(L)
    /\ \A i \in Firsts(L) : \E r \in 1..Len(p.rows) : p.rows[r] = [at |-> L[i].c, t |-> L[i].t, s |-> L[i].s, o |-> L[i].o]
    /\ \A r \in 1..Len(p.rows) : \E i \in Firsts(L) : L[i].c = p.rows[r].at
    /\ \A r \in 1..(Len(p.rows) - 1) : p.rows[r].at < p.rows[r+1].at
WithinSize == \A g \in 1..Len(groups) : \A tag \in {"step", "cycle"} : LET p == PartOf(groups[g], tag) IN p.cap # Unlimited => Len(p.rows) <= p.cap
(* What is on disk never changes afterwards *)
NothingLost == [][\A g \in 1..Len(groups) : \A tag \in {"step", "cycle"} :
    \A r \in 1..Len(PartOf(groups[g], tag).rows) : \E q \in 1..Len(PartOf(st'.groups[g], tag).rows) : PartOf(st'.groups[g], tag).rows[q] = PartOf(groups[g], tag).rows[r]]_<<st>>
MetaStays == [][\A g \in 1..Len(groups) : groups[g].meta # <<>> => st'.groups[g].meta = groups[g].meta]_<<st>>
Emit == (Gen /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
=============================================================================
