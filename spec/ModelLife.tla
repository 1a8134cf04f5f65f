----------------------------- MODULE ModelLife -----------------------------
(***************************************************************************)
(* Life of some models of the same architecture: updates of parameters,    *)
(* evaluations, refused calls, copies, transfers of the state. The         *)
(* abstract state of an instance is the version of its parameters; below   *)
(* it there are storage cells, and derived data (a cache) which an         *)
(* implementation could keep.                                              *)
(* Variant: "design"; "shallow" (copies share storage), "cached" (results  *)
(* derived from the parameters outlive an update), "leak" (a refused call  *)
(* changes the state), "half" (a transfer leaves out part of the state).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxInst, MaxLen, Variant, Ways, Sizes, Copies, Emit

VARIABLES
    ver,      \* instance -> version of its parameters (what should be)
    cell,     \* instance -> storage cell
    store,    \* cell -> version stored there
    cache,    \* instance -> version which derived data come from, 0 if none
    used,     \* instance -> version which the last evaluation depended on
    next, hist

vars == <<ver, cell, store, cache, used, next, hist>>

Init ==
    /\ ver = <<1>> /\ cell = <<1>> /\ store = <<1>> /\ cache = <<0>> /\ used = <<1>>
    /\ next = 2
    /\ hist = <<>>

Log(a) == hist' = Append(hist, a)

Update(m, w) ==
    /\ ver' = [ver EXCEPT ![m] = next]
    /\ store' = [store EXCEPT ![cell[m]] = next]
    /\ next' = next + 1
    /\ cache' = IF Variant = "cached" THEN cache ELSE [cache EXCEPT ![m] = 0]
    /\ used' = [used EXCEPT ![m] = next]
    /\ Log([op |-> "update", m |-> m, way |-> w])
    /\ UNCHANGED cell

Eval(m, b) ==
    /\ cache' = [cache EXCEPT ![m] = IF @ = 0 THEN store[cell[m]] ELSE @]
    /\ used' = [used EXCEPT ![m] = IF Variant = "cached" THEN cache'[m] ELSE store[cell[m]]]
    /\ Log([op |-> "eval", m |-> m, size |-> b])
    /\ UNCHANGED <<ver, cell, store, next>>

Refused(m) ==
    /\ IF Variant = "leak"
       THEN store' = [store EXCEPT ![cell[m]] = 0 - next] ELSE UNCHANGED store
    /\ Log([op |-> "refused", m |-> m])
    /\ UNCHANGED <<ver, cell, cache, used, next>>

Copy(m, h) ==
    /\ Len(ver) < MaxInst
    /\ ver' = Append(ver, ver[m])
    /\ store' = IF Variant = "shallow" THEN store ELSE Append(store, store[cell[m]])
    /\ cell' = Append(cell, IF Variant = "shallow" THEN cell[m] ELSE Len(store'))
    /\ cache' = Append(cache, cache[m])
    /\ used' = Append(used, ver[m])
    /\ Log([op |-> "copy", m |-> m, how |-> h])
    /\ UNCHANGED next

Assign(m, f) ==
    /\ m # f
    /\ ver' = [ver EXCEPT ![m] = ver[f]]
    /\ store' = IF Variant = "half" THEN store
                ELSE [store EXCEPT ![cell[m]] = store[cell[f]]]
    /\ cache' = IF Variant = "cached" THEN cache ELSE [cache EXCEPT ![m] = 0]
    /\ used' = [used EXCEPT ![m] = ver[f]]
    /\ Log([op |-> "assign", m |-> m, from |-> f])
    /\ UNCHANGED <<cell, next>>

Next ==
    /\ Len(hist) < MaxLen
    /\ \E m \in 1..Len(ver) :
         \/ \E w \in Ways : Update(m, w)
         \/ \E b \in Sizes : Eval(m, b)
         \/ Refused(m)
         \/ \E h \in Copies : Copy(m, h)
         \/ \E f \in 1..Len(ver) : Assign(m, f)

\* What's stored is what should be, and what's evaluated is what's stored
Faithful ==
    \A m \in 1..Len(ver) : store[cell[m]] = ver[m] /\ used[m] = ver[m]

\* Different instances don't share storage
Separate == \A m, n \in 1..Len(ver) : m # n => cell[m] # cell[n]

\* Only complete histories in which something is evaluated after a change
Interesting ==
    \E i, j \in 1..Len(hist) : i < j /\ hist[i].op # "eval" /\ hist[j].op = "eval"

Emitted ==
    (Emit /\ Len(hist) = MaxLen /\ Interesting) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
