------------------------------- MODULE Store -------------------------------
(* Files with estimates.  A group of a file (one per storage key) holds two  *)
(* parts: "step" has one entry per step written, in order; "cycle" has the   *)
(* first entry of every cycle.  Either keeps a chosen level of detail or     *)
(* does not exist.  A writer owns a group from opening to closing; whatever  *)
(* is refused leaves everything as it was, and leaving by an exception is    *)
(* like closing.                                                             *)
(*                                                                           *)
(* An estimate is [kind, mean, cov] (kind "Delta" has no covariance).        *)
EXTENDS Sequences, Integers, Check
LOCAL INSTANCE Num
LOCAL INSTANCE TLC
VARIABLES st    \* [groups, writers]: what is on disk and who is writing it
                \* a group is [file, key, meta, step, cycle]; meta <<>> or <<description>>; step, cycle: parts [what, cap, rows], rows: sequence of [at, t, s, o]
                \* a writer is [file, key, opts, open, pos, ready]; opts = [step, cycle, resizable]
groups == st.groups
writers == st.writers

NoPart == [what |-> "none", cap |-> 0, rows |-> <<>>]
Unlimited == -1
At(S, f, k) == IF \E i \in 1..Len(S.groups) : S.groups[i].file = f /\ S.groups[i].key = k
               THEN CHOOSE i \in 1..Len(S.groups) : S.groups[i].file = f /\ S.groups[i].key = k ELSE 0
GroupIn(S, w) == At(S, S.writers[w].file, S.writers[w].key)
GroupOf(w) == GroupIn(st, w)
PartOf(g, tag) == IF tag = "step" THEN g.step ELSE g.cycle
Holds(p, i) == \E r \in 1..Len(p.rows) : p.rows[r].at = i
Fits(p, i) == p.cap = Unlimited \/ i < p.cap
(* Put an entry at an index, keeping the rows in order of their index *)
Put(p, i, e) ==
    LET below == SelectSeq(p.rows, LAMBDA r : r.at < i)
        above == SelectSeq(p.rows, LAMBDA r : r.at > i) IN
    [p EXCEPT !.rows = below \o <<[at |-> i, t |-> e.t, s |-> e.s, o |-> e.o]>> \o above]

---------------------------------------------------------------------------
Empty == [groups |-> <<>>, writers |-> <<>>]
Created(S, f, k, o) == [S EXCEPT !.writers = Append(@, [file |-> f, key |-> k, opts |-> o, open |-> FALSE, pos |-> 0, ready |-> FALSE])]
Opened(S, w) ==
    LET v == S.writers[w] IN
    [S EXCEPT !.writers = [@ EXCEPT ![w].open = TRUE, ![w].pos = 0, ![w].ready = FALSE],
              !.groups = IF GroupIn(S, w) # 0 THEN @ ELSE Append(@, [file |-> v.file, key |-> v.key, meta |-> <<>>, step |-> NoPart, cycle |-> NoPart])]
Closed(S, w) == [S EXCEPT !.writers = [@ EXCEPT ![w].open = FALSE, ![w].ready = FALSE]]

(* Sizes are -1 if they are not known *)
PrepareRefusedIn(S, w, steps, cycles) ==
    LET v == S.writers[w] IN
    IF ~v.open THEN TRUE
    ELSE \/ ~v.opts.resizable /\ (steps = -1 \/ cycles = -1)
         \/ v.opts.step # "none" /\ S.groups[GroupIn(S, w)].step.what # "none"
         \/ v.opts.cycle # "none" /\ S.groups[GroupIn(S, w)].cycle.what # "none"
Prepared(S, w, steps, cycles, meta) ==
    IF PrepareRefusedIn(S, w, steps, cycles) THEN S
    ELSE LET o == S.writers[w].opts
             part(what, n) == [what |-> what, cap |-> IF o.resizable THEN Unlimited ELSE n, rows |-> <<>>] IN
         [S EXCEPT !.groups = [@ EXCEPT ![GroupIn(S, w)] = [@ EXCEPT !.meta = <<meta>>,
                            !.step = IF o.step = "none" THEN @ ELSE part(o.step, steps),
                            !.cycle = IF o.cycle = "none" THEN @ ELSE part(o.cycle, cycles)]],
                   !.writers = [@ EXCEPT ![w].ready = TRUE]]
(* e = [t, c, s, o] *)
AppendRefusedIn(S, w, e) ==
    LET v == S.writers[w] IN
    IF ~v.open THEN TRUE
    ELSE LET g == S.groups[GroupIn(S, w)] IN
         \/ v.opts.step # "none" /\ ~Fits(g.step, v.pos)
         \/ v.opts.cycle # "none" /\ ~Fits(g.cycle, e.c)
Appended(S, w, e) ==
    IF AppendRefusedIn(S, w, e) THEN S
    ELSE LET v == S.writers[w]
             g == S.groups[GroupIn(S, w)]
             sp == IF v.opts.step = "none" THEN g.step ELSE Put(g.step, v.pos, e)
             cy == IF v.opts.cycle = "none" \/ Holds(g.cycle, e.c) THEN g.cycle ELSE Put(g.cycle, e.c, e) IN
         TLCEval([S EXCEPT !.groups = [@ EXCEPT ![GroupIn(S, w)] = [@ EXCEPT !.step = sp, !.cycle = cy]],
                           !.writers = [@ EXCEPT ![w].pos = @ + 1]])
RECURSIVE AppendedAll(_, _, _)
AppendedAll(S, w, es) == IF es = <<>> THEN S ELSE AppendedAll(Appended(S, w, Head(es)), w, Tail(es))

Init == st = Empty
Create(f, k, o) == st' = Created(st, f, k, o)
Open(w) == st' = Opened(st, w)
Close(w) == st' = Closed(st, w)
Prepare(w, steps, cycles, meta) == st' = Prepared(st, w, steps, cycles, meta)
PrepareRefused(w, steps, cycles) == PrepareRefusedIn(st, w, steps, cycles)
AppendStep(w, e) == st' = Appended(st, w, e)
AppendRefused(w, e) == AppendRefusedIn(st, w, e)

---------------------------------------------------------------------------
(* What a reader gets *)
Zero(n) == [i \in 1..n |-> [j \in 1..n |-> "0"]]
Diag(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> IF i = j THEN m[i][j] ELSE "0"]]
CovOf(d) == IF d.kind = "Delta" THEN Zero(Len(d.mean)) ELSE d.cov
AsRead(what, d) ==
    CASE what = "full" -> d
      [] what = "mean_cov" -> [kind |-> "Gaussian", mean |-> d.mean, cov |-> CovOf(d)]
      [] what = "mean_var" -> [kind |-> "Gaussian", mean |-> d.mean, cov |-> Diag(CovOf(d))]
      [] what = "mean" -> [kind |-> "Delta", mean |-> d.mean, cov |-> <<>>]
ReadRefused(g, tag, kind) ==
    IF g.meta = <<>> THEN TRUE
    ELSE \/ PartOf(g, tag).what = "none"
         \/ PartOf(g, tag).what = "full" /\ kind # g.meta[1].distribution
Read(g, tag) == LET p == PartOf(g, tag) IN TLCEval([i \in 1..Len(p.rows) |-> [t |-> p.rows[i].t, s |-> AsRead(p.what, p.rows[i].s), o |-> AsRead(p.what, p.rows[i].o)]])
(* Which datasets a part has *)
KeysOf(what, kind) ==
    CASE what = "none" -> {}
      [] what = "mean" -> {"time", "state_mean", "output_mean"}
      [] what = "mean_var" -> {"time", "state_mean", "output_mean", "state_variance", "output_variance"}
      [] what = "mean_cov" -> {"time", "state_mean", "output_mean", "state_covariance", "output_covariance"}
      [] what = "full" -> {"time", "state_mean", "output_mean"} \cup (IF kind = "Delta" THEN {} ELSE {"state_covariance", "output_covariance"})
=============================================================================
