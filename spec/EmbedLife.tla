----------------------------- MODULE EmbedLife -----------------------------
(***************************************************************************)
(* Life of models with a trainable embedding (C09). Each instance has the  *)
(* version of its parameters; evaluating it uses a version of the          *)
(* normalisation. The design computes the normalisation from the current   *)
(* parameters; the broken variants cache it and forget to invalidate the   *)
(* cache on some of the actions.                                           *)
(*                                                                         *)
(* The complete histories of length Depth are printed, and replayed on the *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, MaxInst, Variant, Emit

VARIABLES ver, cache, used, hist, clock
vars == <<ver, cache, used, hist, clock>>

None == 0 - 1

Insts == 1..Len(ver)

Init ==
    /\ ver = <<0>>
    /\ cache = <<IF Variant = "construct" THEN 0 ELSE None>>
    /\ used = <<None>>
    /\ clock = 0
    /\ hist = <<>>

\* How the parameters of instance i are changed in place
Ways == {"copy_", "data", "step", "load"}

Keeps(way) ==
    \/ Variant = "construct"
    \/ Variant = "first"
    \/ Variant = "load" /\ way = "load"
    \/ Variant = "step" /\ way \in {"copy_", "step", "data"}

Log(a) == hist' = Append(hist, a)

Update(i, way) ==
    /\ clock' = clock + 1
    /\ ver' = [ver EXCEPT ![i] = clock + 1]
    /\ cache' = [cache EXCEPT ![i] = IF Keeps(way) THEN @ ELSE None]
    /\ used' = [used EXCEPT ![i] = None]
    /\ Log([op |-> "update", m |-> i, way |-> way])

Evaluate(i, how) ==
    LET c == IF cache[i] = None THEN ver[i] ELSE cache[i]
    IN  /\ cache' = [cache EXCEPT ![i] = IF Variant = "exact" THEN None ELSE c]
        /\ used' = [used EXCEPT ![i] = IF Variant = "exact" THEN ver[i] ELSE c]
        /\ UNCHANGED <<ver, clock>>
        /\ Log([op |-> "eval", m |-> i, how |-> how])

\* A copy takes over the cache as well
Copy(i, how) ==
    /\ Len(ver) < MaxInst
    /\ ver' = Append(ver, ver[i])
    /\ cache' = Append(cache, cache[i])
    /\ used' = Append(used, None)
    /\ UNCHANGED clock
    /\ Log([op |-> "copy", m |-> i, how |-> how])

\* Instance i gets the state dictionary of instance j
Assign(i, j) ==
    /\ i # j
    /\ ver' = [ver EXCEPT ![i] = ver[j]]
    /\ cache' = [cache EXCEPT ![i] = IF Keeps("load") THEN @ ELSE None]
    /\ used' = [used EXCEPT ![i] = None]
    /\ UNCHANGED clock
    /\ Log([op |-> "assign", m |-> i, from |-> j])

\* Conversions (dtype, training mode) leave the values of the parameters alone
Convert(i, how) ==
    /\ UNCHANGED <<ver, cache, used, clock>>
    /\ Log([op |-> "convert", m |-> i, how |-> how])

Next ==
    /\ Len(hist) < Depth
    /\ \E i \in Insts :
          \/ \E w \in Ways : Update(i, w)
          \/ \E h \in {"plain", "no_grad", "backward", "loss"} : Evaluate(i, h)
          \/ \E h \in {"deepcopy", "pickle", "save"} : Copy(i, h)
          \/ \E j \in Insts : Assign(i, j)
          \/ \E h \in {"double", "train", "eval"} : Convert(i, h)

\* Every evaluation uses the norm of the current parameters
NeverStale == \A i \in Insts : used[i] # None => used[i] = ver[i]

Emitted ==
    (Emit /\ Len(hist) = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
