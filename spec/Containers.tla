----------------------------- MODULE Containers -----------------------------
(* Containers of inputs, states and outputs, and the arrays which a caller   *)
(* exchanges with them.                                                      *)
(*                                                                           *)
(* A container is a sequence of fields [k, v]; v is <<>> if the field is     *)
(* absent and else a sequence of rows (one per batch member, or one for all  *)
(* of them).  An array is a sequence of rows.  Every array is the caller's:  *)
(* writing to it changes no container, and vice versa.                       *)
EXTENDS Sequences, Integers, FiniteSets, Check
LOCAL INSTANCE Num
LOCAL INSTANCE TLC
VARIABLES cs,    \* containers
          as     \* arrays held by the caller

Absent(f) == f.v = <<>>
Present(c) == SelectSeq(c, LAMBDA f : ~Absent(f))
WidthOf(f) == IF Absent(f) THEN 0 ELSE Len(f.v[1])
RECURSIVE SumW(_)
SumW(fs) == IF fs = <<>> THEN 0 ELSE WidthOf(Head(fs)) + SumW(Tail(fs))
Columns(c) == SumW(c)
BatchOf(c) == IF \E i \in 1..Len(c) : Len(c[i].v) > 1 THEN Len(c[CHOOSE i \in 1..Len(c) : Len(c[i].v) > 1].v) ELSE 1
RowOf(v, b) == v[((b - 1) % Len(v)) + 1]
FieldNames(f) == IF Absent(f) THEN <<>>
                 ELSE IF WidthOf(f) = 1 THEN <<f.k>>
                 ELSE [i \in 1..WidthOf(f) |-> f.k \o "[" \o ToString(i - 1) \o "]"]
NamesOf(c) == Flat([i \in 1..Len(c) |-> FieldNames(c[i])])
Packed(c) == TLCEval([b \in 1..BatchOf(c) |-> Flat([i \in 1..Len(c) |-> IF Absent(c[i]) THEN <<>> ELSE RowOf(c[i].v, b)])])
RECURSIVE Offset(_, _)
Offset(c, i) == IF i = 1 THEN 0 ELSE Offset(c, i - 1) + WidthOf(c[i - 1])
Unpacked(c, a) == TLCEval([i \in 1..Len(c) |-> IF Absent(c[i]) THEN c[i]
                     ELSE [c[i] EXCEPT !.v = [b \in 1..Len(a) |-> SubSeq(a[b], Offset(c, i) + 1, Offset(c, i) + WidthOf(c[i]))]]])

---------------------------------------------------------------------------
Init == cs = <<>> /\ as = <<>>
New(c) == cs' = Append(cs, c) /\ UNCHANGED as
NewArray(a) == as' = Append(as, a) /\ UNCHANGED cs
Pack(i) == as' = Append(as, Packed(cs[i])) /\ UNCHANGED cs
Unpack(i, j) == cs' = [cs EXCEPT ![i] = Unpacked(@, as[j])] /\ UNCHANGED as
Copy(i, j) == cs' = Append(cs, Unpacked(cs[i], as[j])) /\ UNCHANGED as
Clone(i) == cs' = Append(cs, cs[i]) /\ UNCHANGED as
Write(j, a) == as' = [as EXCEPT ![j] = a] /\ UNCHANGED cs      \* the caller overwrites its array
Poke(i, k, v) == cs' = [cs EXCEPT ![i] = [@ EXCEPT ![k] = [@ EXCEPT !.v = v]]] /\ UNCHANGED as   \* in-place write to one field

---------------------------------------------------------------------------
Spread(c) == [i \in 1..Len(c) |-> IF Absent(c[i]) THEN c[i] ELSE [c[i] EXCEPT !.v = [b \in 1..BatchOf(c) |-> RowOf(c[i].v, b)]]]
RoundTrip == \A i \in 1..Len(cs) : cs[i] # <<>> => Unpacked(cs[i], Packed(cs[i])) = Spread(cs[i])
PackUnpack == \A i \in 1..Len(cs), j \in 1..Len(as) :
    (\A b \in 1..Len(as[j]) : Len(as[j][b]) = Columns(cs[i])) => Packed(Unpacked(cs[i], as[j])) = as[j]
NamesMatch == \A i \in 1..Len(cs) : Len(NamesOf(cs[i])) = Columns(cs[i]) /\ \A b \in 1..BatchOf(cs[i]) : Len(Packed(cs[i])[b]) = Columns(cs[i])
=============================================================================
