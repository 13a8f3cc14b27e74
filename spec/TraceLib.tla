------------------------------ MODULE TraceLib ------------------------------
(* Trace validation.  The harness records one line per action of the real    *)
(* code; a trace specification replays the lines through the actions of the  *)
(* specification and compares.  Verdicts are total: every mismatch is        *)
(* printed as a line BAD {json} and the replay goes on; the line DONE n says *)
(* that all n lines were consumed.                                           *)
EXTENDS Check, Sequences, Integers, TLC, Json, IOUtils
LOCAL INSTANCE Num
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nbad

LibInit == l = 1 /\ nbad = 0
More == l <= Len(Trace)
Line == Trace[l]
Report(ms) ==
    /\ l' = l + 1
    /\ nbad' = nbad + Len(ms)
    /\ IF ms # <<>> /\ nbad < 40
       THEN PrintT("BAD " \o ToJson([line |-> l, scn |-> Line.scn, ev |-> Line.ev, mis |-> SubSeq(ms, 1, IF Len(ms) > 5 THEN 5 ELSE Len(ms))]))
       ELSE TRUE
    /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToString(l)) ELSE TRUE
=============================================================================
