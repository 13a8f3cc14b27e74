------------------------------- MODULE Serial -------------------------------
(* Writing health descriptions as text and reading them back.                *)
(*                                                                           *)
(* A text holds everything there is to know of a description when it was     *)
(* written: the tree of its parameters with their marks (Params.tla) and its *)
(* options, which are the attributes that are not parameters.  Reading makes *)
(* another description.  How a description answers a question is a function  *)
(* of its history alone: writing, reading and answering leave no trace.      *)
EXTENDS Params
LOCAL INSTANCE Num
LOCAL INSTANCE TLC
VARIABLES opts,    \* the options of each description
          hist,    \* what has been done to each description
          texts,   \* [tree, opts, hist]
          seen     \* answers: [hist, q, a]
svars == <<objs, err, opts, hist, texts, seen>>

SInit == Init /\ opts = <<>> /\ hist = <<>> /\ texts = <<>> /\ seen = <<>>

SNew(tree, o, tag) ==
    Create(tree) /\ opts' = Append(opts, o) /\ hist' = Append(hist, <<tag>>) /\ UNCHANGED <<texts, seen>>
(* Any of the actions of a description (Params.tla) which alters only description i *)
SAlter(i, tag) == hist' = [hist EXCEPT ![i] = IF err' THEN @ ELSE Append(@, tag)] /\ UNCHANGED <<opts, texts, seen>>
WriteText(i) ==
    /\ texts' = Append(texts, [tree |-> objs[i], opts |-> opts[i], hist |-> hist[i]])
    /\ err' = FALSE /\ UNCHANGED <<objs, opts, hist, seen>>
ReadText(j) ==
    /\ objs' = Append(objs, texts[j].tree) /\ opts' = Append(opts, texts[j].opts) /\ hist' = Append(hist, texts[j].hist)
    /\ err' = FALSE /\ UNCHANGED <<texts, seen>>
Ask(i, q, a) ==
    /\ seen' = Append(seen, [hist |-> hist[i], q |-> q, a |-> a])
    /\ err' = FALSE /\ UNCHANGED <<objs, opts, hist, texts>>

---------------------------------------------------------------------------
(* Descriptions with the same history, wherever they come from, are equal *)
SameHistory == \A i, j \in 1..Len(objs) : hist[i] = hist[j] => objs[i] = objs[j] /\ opts[i] = opts[j]
SameText == \A i \in 1..Len(objs), j \in 1..Len(texts) : hist[i] = texts[j].hist => objs[i] = texts[j].tree /\ opts[i] = texts[j].opts
TextsStay == [][\A j \in 1..Len(texts) : texts'[j] = texts[j]]_svars
OneAtATime == [][Cardinality({i \in 1..Len(objs) : objs'[i] # objs[i]}) <= 1]_svars
WritingKeeps == [][Len(texts') > Len(texts) => objs' = objs /\ opts' = opts]_svars
ReadingKeeps == [][Len(objs') > Len(objs) => \A i \in 1..Len(objs) : objs'[i] = objs[i]]_svars
=============================================================================
