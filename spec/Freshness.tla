----------------------------- MODULE Freshness -----------------------------
(***************************************************************************)
(* An evaluation depends on the current contents of everything it reads:   *)
(* the parts of the model (cores, edges, bias, embedding, ...) and the     *)
(* input tensor. An implementation may remember something derived from     *)
(* them, under a key. What it can see of a part is the identity of the     *)
(* object, the address of the memory, a counter of the in-place writes,    *)
(* and the contents; and the ways to write a part show in some of these    *)
(* only:                                                                   *)
(*   copy, step, load   in place, counted                                  *)
(*   inner              in place, not counted (through .data, or numpy)    *)
(*   data               new memory for the same object, not counted        *)
(*   object             another object                                     *)
(* New memory may be any which isn't in use, also one used before.         *)
(*                                                                         *)
(* Sees is the set of what the key contains, Keyed the parts it covers,    *)
(* MemoIn the contexts in which the memo is used; Sees = {} without a      *)
(* memo. With Many the memo has an entry for each key, else only one.      *)
(*                                                                         *)
(* Tours = TRUE makes behaviours which alternate evaluations and writes    *)
(* and contain every pair of part and way once; they are printed and       *)
(* replayed on real models.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Parts, Sees, Keyed, MemoIn, Many, Depth, Tours, Emit

VARIABLES ver, obj, ptr, cnt, memo, used, clock, ctx, todo, hist
vars == <<ver, obj, ptr, cnt, memo, used, clock, ctx, todo, hist>>

Contexts == {"train", "eval", "no_grad", "inference", "backward"}

Ways(p) == IF p = "input" THEN {"copy", "inner", "object"}
           ELSE {"copy", "inner", "data", "step", "load", "object"}

AllWrites == UNION {{<<p, w>> : w \in Ways(p)} : p \in Parts}

Pointers == 1..(Cardinality(Parts) + 2)

Index(p) == CHOOSE f \in [Parts -> 1..Cardinality(Parts)] :
              \A q, r \in Parts : q # r => f[q] # f[r]

Init ==
    /\ ver = [p \in Parts |-> 0]
    /\ obj = [p \in Parts |-> 0]
    /\ ptr = LET f == Index(0) IN f
    /\ cnt = [p \in Parts |-> 0]
    /\ memo = {}
    /\ used = ver
    /\ clock = 0
    /\ ctx \in (IF Tours THEN Contexts \cup {"any"} ELSE {"any"})
    /\ todo = IF Tours THEN AllWrites ELSE {}
    /\ hist = <<>>

Key == [p \in Keyed |->
          <<IF "object" \in Sees THEN obj[p] ELSE 0, IF "address" \in Sees THEN ptr[p] ELSE 0,
            IF "count" \in Sees THEN cnt[p] ELSE 0, IF "content" \in Sees THEN ver[p] ELSE 0>>]

Eval(c) ==
    /\ LET hit == {e \in memo : e.key = Key}
       IN  IF Sees = {} \/ c \notin MemoIn
           THEN used' = ver /\ UNCHANGED memo
           ELSE IF hit # {}
           THEN used' = (CHOOSE e \in hit : TRUE).ver /\ UNCHANGED memo
           ELSE /\ used' = ver
                /\ memo' = (IF Many THEN memo ELSE {}) \cup {[key |-> Key, ver |-> ver]}
    /\ hist' = Append(hist, [op |-> "eval", how |-> c])
    /\ UNCHANGED <<ver, obj, ptr, cnt, clock, ctx, todo>>

Write(p, w) ==
    /\ clock' = clock + 1
    /\ ver' = [ver EXCEPT ![p] = clock']
    /\ obj' = IF w = "object" THEN [obj EXCEPT ![p] = clock'] ELSE obj
    /\ IF w \in {"data", "object"}
       THEN \E a \in (IF Tours THEN {CHOOSE b \in Pointers : \A q \in Parts : ptr[q] # b}
                      ELSE {b \in Pointers : \A q \in Parts : ptr[q] # b}) :
              ptr' = [ptr EXCEPT ![p] = a]
       ELSE UNCHANGED ptr
    /\ cnt' = CASE w \in {"copy", "step", "load"} -> [cnt EXCEPT ![p] = @ + 1]
                [] w = "object" -> [cnt EXCEPT ![p] = 0]
                [] OTHER -> cnt
    /\ used' = ver'  \* nothing evaluated yet
    /\ hist' = Append(hist, [op |-> "write", part |-> p, way |-> w])
    /\ todo' = todo \ {<<p, w>>}
    /\ UNCHANGED <<memo, ctx>>

Evaluated == hist # <<>> /\ hist[Len(hist)].op = "eval"

Next ==
    IF Tours
    THEN IF Evaluated
         THEN \E x \in todo : Write(x[1], x[2])
         ELSE \E c \in (IF ctx = "any" THEN Contexts ELSE {ctx}) : Eval(c)
    ELSE /\ Len(hist) < Depth
         /\ \/ \E p \in Parts : \E w \in Ways(p) : Write(p, w)
            \/ \E c \in Contexts : Eval(c)

\* What an evaluation uses is what's there
Fresh == used = ver

Emitted == (Emit /\ Tours /\ todo = {} /\ Evaluated) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
