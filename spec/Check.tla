------------------------------- MODULE Check -------------------------------
(* Total comparisons of an expectation with an observation.  Each yields a   *)
(* sequence of mismatches [clause, expected, observed], empty if they agree; *)
(* none of them fails, whatever the shape of the observation.                *)
LOCAL INSTANCE Num
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

Mis(clause, e, g) == <<[clause |-> clause, expected |-> ToString(e), observed |-> ToString(g)]>>
OK == <<>>

(* Exact equality of values made of strings, integers, booleans, sequences *)
CEq(clause, e, g) == IF SameValue(e, g) THEN OK ELSE Mis(clause, e, g)
CTrue(clause, b) == IF b THEN OK ELSE Mis(clause, TRUE, FALSE)

(* Numbers, within tol relative to max(scale, |e|, |g|); NaN only agrees with NaN *)
SameNum(e, g, tol, scale) ==
    IF ~IsNumeral(g) THEN FALSE
    ELSE IF RIsNum(e) /\ RIsNum(g) THEN RClose(e, g, tol, scale)
    ELSE ~RIsNum(e) /\ ~RIsNum(g)
CNum(clause, e, g, tol, scale) == IF SameNum(e, g, tol, scale) THEN OK ELSE Mis(clause, e, g)
(* The same number, exactly *)
CExact(clause, e, g) ==
    IF IsNumeral(g) /\ ((RIsNum(e) /\ RIsNum(g) /\ REq(e, g)) \/ (~RIsNum(e) /\ ~RIsNum(g))) THEN OK ELSE Mis(clause, e, g)

RECURSIVE SameNest(_, _, _, _)
SameNest(e, g, tol, scale) ==
    IF IsSeq(e)
    THEN IsSeq(g) /\ Len(g) = Len(e) /\ \A i \in 1..Len(e) : SameNest(e[i], g[i], tol, scale)
    ELSE ~IsSeq(g) /\ SameNum(e, g, tol, scale)
(* Nested sequences of numbers: same shape, each number within tolerance *)
CNest(clause, e, g, tol, scale) == IF SameNest(e, g, tol, scale) THEN OK ELSE Mis(clause, e, g)

RECURSIVE SameNestX(_, _)
SameNestX(e, g) ==
    IF IsSeq(e)
    THEN IsSeq(g) /\ Len(g) = Len(e) /\ \A i \in 1..Len(e) : SameNestX(e[i], g[i])
    ELSE ~IsSeq(g) /\ CExact("", e, g) = OK
CNestX(clause, e, g) == IF SameNestX(e, g) THEN OK ELSE Mis(clause, e, g)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Has(r, f) == f \in DOMAIN r
=============================================================================
