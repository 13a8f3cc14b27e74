------------------------------- MODULE Params -------------------------------
(* Health descriptions: trees of named parameters, each an array of          *)
(* (batch, values) numbers, some of which are marked as updatable.           *)
(*                                                                           *)
(* A node is [fs, upd]: its fields in order and the names of those that are  *)
(* marked.  A field is [k, t, v, m, ms]: a parameter (t = "p", array v), one *)
(* nested node (t = "m", node m), or a collection of nodes (t = "s" for a    *)
(* tuple, "d" for a dictionary; ms is a sequence of [k, m]).  A path is the  *)
(* sequence of keys which leads to a parameter or to a nested node.          *)
EXTENDS Sequences, Integers, FiniteSets, Check
LOCAL INSTANCE Num
LOCAL INSTANCE TLC

VARIABLES objs,   \* the descriptions in existence (copies included)
          err     \* whether the last action was refused

---------------------------------------------------------------------------
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF s = <<>> THEN 1 ELSE Max2(Head(s), MaxSeq(Tail(s)))
RECURSIVE SumInt(_)
SumInt(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInt(Tail(s))
RECURSIVE Dots(_)
Dots(path) == IF Len(path) = 1 THEN path[1] ELSE path[1] \o "." \o Dots(Tail(path))
MapSeq(F(_), s) == TLCEval([i \in 1..Len(s) |-> F(s[i])])

Pre(k, ps) == TLCEval([i \in 1..Len(ps) |-> [path |-> <<k>> \o ps[i].path, v |-> ps[i].v]])

(* All parameters in order: depth first, in order of declaration *)
RECURSIVE Params(_, _)
Params(nd, onlyUpd) == TLCEval(Flat([i \in 1..Len(nd.fs) |->
    LET f == nd.fs[i] IN
    IF onlyUpd /\ f.k \notin nd.upd THEN <<>>
    ELSE CASE f.t = "p" -> <<[path |-> <<f.k>>, v |-> f.v]>>
           [] f.t = "m" -> Pre(f.k, Params(f.m, onlyUpd))
           [] OTHER -> Pre(f.k, Flat([j \in 1..Len(f.ms) |-> Pre(f.ms[j].k, Params(f.ms[j].m, onlyUpd))]))]))

Names(nd, onlyUpd) == MapSeq(LAMBDA p : Dots(p.path), Params(nd, onlyUpd))
Paths(nd, onlyUpd) == MapSeq(LAMBDA p : p.path, Params(nd, onlyUpd))
Width(v) == Len(v[1])
NumUpdatable(nd) == SumInt(MapSeq(LAMBDA p : Width(p.v), Params(nd, TRUE)))
Batch(nd) == MaxSeq(MapSeq(LAMBDA p : Len(p.v), Params(nd, FALSE)))

Idx(nd, k) == CHOOSE i \in 1..Len(nd.fs) : nd.fs[i].k = k
HasKey(nd, k) == \E i \in 1..Len(nd.fs) : nd.fs[i].k = k
Mem(f, k) == CHOOSE j \in 1..Len(f.ms) : f.ms[j].k = k

(* The value of the parameter at a path *)
RECURSIVE At(_, _)
At(nd, path) ==
    LET f == nd.fs[Idx(nd, path[1])] IN
    CASE f.t = "p" -> f.v
      [] f.t = "m" -> At(f.m, Tail(path))
      [] OTHER -> At(f.ms[Mem(f, path[2])].m, SubSeq(path, 3, Len(path)))

(* Is everything along the path marked as updatable *)
RECURSIVE Marked(_, _)
Marked(nd, path) ==
    LET f == nd.fs[Idx(nd, path[1])] IN
    /\ path[1] \in nd.upd
    /\ CASE f.t = "p" -> TRUE
         [] f.t = "m" -> IF Len(path) = 1 THEN TRUE ELSE Marked(f.m, Tail(path))
         [] OTHER -> IF Len(path) <= 2 THEN TRUE ELSE Marked(f.ms[Mem(f, path[2])].m, SubSeq(path, 3, Len(path)))

SetField(nd, i, f) == [nd EXCEPT !.fs = [@ EXCEPT ![i] = f]]

RECURSIVE Put(_, _, _)
Put(nd, path, v) ==
    LET i == Idx(nd, path[1])
        f == nd.fs[i] IN
    CASE f.t = "p" -> SetField(nd, i, [f EXCEPT !.v = v])
      [] f.t = "m" -> SetField(nd, i, [f EXCEPT !.m = Put(@, Tail(path), v)])
      [] OTHER -> LET j == Mem(f, path[2]) IN
                  SetField(nd, i, [f EXCEPT !.ms = [@ EXCEPT ![j] = [@ EXCEPT !.m = Put(@, SubSeq(path, 3, Len(path)), v)]]])

RECURSIVE MarkPath(_, _)
MarkPath(nd, path) ==
    LET i == Idx(nd, path[1])
        f == nd.fs[i]
        n1 == [nd EXCEPT !.upd = @ \cup {path[1]}] IN
    CASE f.t = "p" -> n1
      [] f.t = "m" -> IF Len(path) = 1 THEN n1 ELSE SetField(n1, i, [f EXCEPT !.m = MarkPath(@, Tail(path))])
      [] OTHER -> IF Len(path) = 1 THEN n1
                  ELSE LET j == Mem(f, path[2]) IN
                  SetField(n1, i, [f EXCEPT !.ms = [@ EXCEPT ![j] = [@ EXCEPT !.m = MarkPath(@, SubSeq(path, 3, Len(path)))]]])

RECURSIVE MarkEach(_, _, _)   \* all: mark (TRUE) or unmark (FALSE) every field; rec: in nested nodes too
MarkEach(nd, all, rec) ==
    [fs |-> IF ~rec THEN nd.fs ELSE TLCEval([i \in 1..Len(nd.fs) |->
            LET f == nd.fs[i] IN
            CASE f.t = "p" -> f
              [] f.t = "m" -> [f EXCEPT !.m = MarkEach(@, all, rec)]
              [] OTHER -> [f EXCEPT !.ms = [j \in 1..Len(f.ms) |-> [f.ms[j] EXCEPT !.m = MarkEach(@, all, rec)]]]]),
     upd |-> IF all THEN nd.upd \cup {nd.fs[i].k : i \in 1..Len(nd.fs)} ELSE {}]

(* One name per number.  A path to a nested node stands for everything in it *)
ValueNames(name, v) == IF Width(v) = 1 THEN <<name>> ELSE [i \in 1..Width(v) |-> name \o "[" \o ToString(i - 1) \o "]"]
RECURSIVE Below(_, _)
Below(nd, path) ==
    LET f == nd.fs[Idx(nd, path[1])] IN
    CASE f.t = "p" -> <<[path |-> <<f.k>>, v |-> f.v]>>
      [] f.t = "m" -> Pre(f.k, IF Len(path) = 1 THEN Params(f.m, FALSE) ELSE Below(f.m, Tail(path)))
      [] OTHER -> IF Len(path) = 1 THEN Pre(f.k, Flat([j \in 1..Len(f.ms) |-> Pre(f.ms[j].k, Params(f.ms[j].m, FALSE))]))
                  ELSE LET e == f.ms[Mem(f, path[2])] IN
                       Pre(f.k, Pre(e.k, IF Len(path) = 2 THEN Params(e.m, FALSE) ELSE Below(e.m, SubSeq(path, 3, Len(path)))))
Expand(nd, paths) ==
    Flat(MapSeq(LAMBDA p : Flat(MapSeq(LAMBDA q : ValueNames(Dots(q.path), q.v), Below(nd, p))), paths))

Row(v, b) == v[((b - 1) % Len(v)) + 1]
(* The numbers at the given paths, one row per member of the batch *)
Get(nd, paths) ==
    TLCEval(LET vs == MapSeq(LAMBDA p : At(nd, p), paths)
                B == Batch(nd)
    IN [b \in 1..B |-> Flat([i \in 1..Len(vs) |-> Row(vs[i], b)])])

RECURSIVE PutAll(_, _, _, _)
PutAll(nd, paths, vals, pos) ==
    IF paths = <<>> THEN nd
    ELSE LET w == Width(At(nd, paths[1])) IN
         PutAll(Put(nd, paths[1], [b \in 1..Len(vals) |-> SubSeq(vals[b], pos, pos + w - 1)]), Tail(paths), vals, pos + w)
Fits(nd, paths, vals) ==
    /\ \A i \in 1..Len(paths) : Marked(nd, paths[i])
    /\ SumInt(MapSeq(LAMBDA p : Width(At(nd, p)), paths)) = Len(vals[1])
Written(nd, paths, vals) == TLCEval(PutAll(nd, paths, vals, 1))

(* A number is always one value; a scalar parameter takes one value per member of the batch *)
Shaped(cur, form, val) ==
    CASE form = "num" -> <<<<val>>>>
      [] form = "vec" /\ Width(cur) = 1 -> [i \in 1..Len(val) |-> <<val[i]>>]
      [] form = "vec" -> <<val>>
      [] OTHER -> val

---------------------------------------------------------------------------
Init == objs = <<>> /\ err = FALSE

Create(tree) == objs' = Append(objs, tree) /\ err' = FALSE
MarkOne(i, path) == objs' = [objs EXCEPT ![i] = MarkPath(@, path)] /\ err' = FALSE
MarkAll(i, rec) == objs' = [objs EXCEPT ![i] = MarkEach(@, TRUE, rec)] /\ err' = FALSE
MarkNone(i, rec) == objs' = [objs EXCEPT ![i] = MarkEach(@, FALSE, rec)] /\ err' = FALSE
Update(i, paths, vals) ==
    IF Fits(objs[i], paths, vals)
    THEN objs' = [objs EXCEPT ![i] = Written(@, paths, vals)] /\ err' = FALSE
    ELSE objs' = objs /\ err' = TRUE
UpdateMarked(i, vals) == Update(i, Paths(objs[i], TRUE), vals)
SetOne(i, path, form, val) ==
    objs' = [objs EXCEPT ![i] = Put(@, path, Shaped(At(@, path), form, val))] /\ err' = FALSE
Copy(i, paths, vals) ==
    IF Fits(objs[i], paths, vals)
    THEN objs' = Append(objs, Written(objs[i], paths, vals)) /\ err' = FALSE
    ELSE objs' = objs /\ err' = TRUE
Read(i) == UNCHANGED objs /\ err' = FALSE

---------------------------------------------------------------------------
(* Properties of the specification *)
AgreeOf(nd) ==
    /\ Len(Expand(nd, Paths(nd, TRUE))) = NumUpdatable(nd)
    /\ Len(Expand(nd, Paths(nd, FALSE))) = SumInt(MapSeq(LAMBDA p : Width(p.v), Params(nd, FALSE)))
    /\ Len(Get(nd, Paths(nd, TRUE))) = Batch(nd)
    /\ \A b \in 1..Batch(nd) : Len(Get(nd, Paths(nd, TRUE))[b]) = NumUpdatable(nd)
    /\ \A p \in {Paths(nd, FALSE)[i] : i \in 1..Len(Paths(nd, FALSE))} :
          Marked(nd, p) <=> \E i \in 1..Len(Paths(nd, TRUE)) : Paths(nd, TRUE)[i] = p
    /\ Cardinality({Names(nd, FALSE)[i] : i \in 1..Len(Names(nd, FALSE))}) = Len(Names(nd, FALSE))
    /\ Get(Written(nd, Paths(nd, TRUE), Get(nd, Paths(nd, TRUE))), Paths(nd, FALSE)) = Get(nd, Paths(nd, FALSE))
Agree == \A i \in 1..Len(objs) : AgreeOf(objs[i])
RefusedIsUnchanged == [][err' => objs' = objs]_<<objs, err>>
=============================================================================
