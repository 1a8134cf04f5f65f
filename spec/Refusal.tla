------------------------------ MODULE Refusal ------------------------------
(***************************************************************************)
(* Refused calls leave no trace (C22). A call is executed in the stages of *)
(* the implementation, each of which may raise an error; twin is a model   *)
(* which only gets the calls which are accepted. Variant:                  *)
(*   design    data are embedded and checked first; a switch decomposes    *)
(*             all the merged cores before anything is assigned; maps are  *)
(*             registered after they've been checked                       *)
(*   counted   inputs are counted before they are checked                  *)
(*   switched  a switch happens before the input is checked                *)
(*   flipped   the pattern changes before the decompositions               *)
(*   spent     the threshold is subtracted before the decompositions       *)
(*   mapped    maps are registered before they are checked                 *)
(***************************************************************************)
EXTENDS RefuseOps, TLC, Json

CONSTANTS T, Adaptive, Sizes, Maps, Depth, Variant, Emit

VARIABLES x, twin, call, pc, hist
vars == <<x, twin, call, pc, hist>>

cfg == [adaptive |-> Adaptive, T |-> T, N |-> 2]

Calls ==
    {[op |-> "call", size |-> b, fault |-> f, v |-> 0] : b \in Sizes, f \in {"none", "input", "data", "cut"}}
    \cup {[op |-> "map", size |-> 0, fault |-> "none", v |-> v] : v \in Maps}
    \cup {[op |-> "map", size |-> 0, fault |-> "wrong", v |-> 0]}
    \cup {[op |-> "step", size |-> 0, fault |-> "none", v |-> 0]}

None == [op |-> "none", size |-> 0, fault |-> "none", v |-> 0]

Stages(c) ==
    CASE c.op = "call" ->
           (CASE Variant = "counted" -> <<"count", "embed", "check", "due", "svd", "assign", "flip", "spend", "done">>
              [] Variant = "switched" -> <<"due", "svd", "assign", "flip", "spend", "embed", "check", "count", "done">>
              [] Variant = "flipped" -> <<"embed", "check", "due", "flip", "svd", "assign", "spend", "count", "done">>
              [] Variant = "spent" -> <<"embed", "check", "due", "spend", "svd", "assign", "flip", "count", "done">>
              [] OTHER -> <<"embed", "check", "due", "svd", "assign", "flip", "spend", "count", "done">>)
      [] c.op = "map" -> IF Variant = "mapped" THEN <<"set", "test", "done">> ELSE <<"test", "set", "done">>
      [] c.op = "step" -> <<"update", "done">>

Init == x = Start /\ twin = Start /\ call = None /\ pc = 0 /\ hist = <<>>

Begin ==
    /\ call = None
    /\ Len(hist) < Depth
    /\ \E c \in Calls : call' = c /\ hist' = Append(hist, c)
    /\ pc' = 1
    /\ UNCHANGED <<x, twin>>

Raise == call' = None /\ pc' = 0 /\ UNCHANGED <<x, twin, hist>>
Go(y) == x' = y /\ pc' = pc + 1 /\ UNCHANGED <<twin, call, hist>>

\* Stages which only belong to a switch are left out if none is due; the
\* decision is taken once
InSwitch(y, c) == Adaptive /\ twin.cnt >= T

Stage ==
    /\ call # None
    /\ LET s == Stages(call)[pc] sw == InSwitch(x, call) IN
       CASE s = "embed" -> IF call.fault = "data" /\ x.map # 0 THEN Raise ELSE Go(x)
         [] s = "check" -> IF call.fault = "input" THEN Raise ELSE Go(x)
         [] s = "test" -> IF call.fault = "wrong" THEN Raise ELSE Go(x)
         [] s = "due" -> Go(x)
         [] s = "svd" -> IF sw /\ call.fault = "cut" THEN Raise ELSE Go(x)
         [] s = "assign" -> Go(IF sw THEN [x EXCEPT !.ver = @ + 1] ELSE x)
         [] s = "flip" -> Go(IF sw THEN [x EXCEPT !.off = 1 - @] ELSE x)
         [] s = "spend" -> Go(IF sw THEN [x EXCEPT !.cnt = @ - T] ELSE x)
         [] s = "count" -> Go(IF Adaptive THEN [x EXCEPT !.cnt = @ + call.size] ELSE x)
         [] s = "set" -> Go([x EXCEPT !.map = call.v])
         [] s = "update" -> Go([x EXCEPT !.ver = @ + 1])
         [] s = "done" ->
              /\ twin' = Accepted(cfg, twin, call)
              /\ call' = None /\ pc' = 0
              /\ UNCHANGED <<x, hist>>

Next == Begin \/ Stage

\* A model at rest is in the state of its twin
NoTrace == call = None => x = twin

\* ... which is what the rules for whole calls say
RECURSIVE Fold(_, _)
Fold(y, cs) == IF cs = <<>> THEN y ELSE Fold(Effect(cfg, y, Head(cs)), Tail(cs))
Ruled == call = None => twin = Fold(Start, hist)

\* Histories in which something follows the last fault
Emitted ==
    (Emit /\ call = None /\ Len(hist) = Depth /\ hist[Depth].op = "call"
     /\ (\E i \in 1..Depth : hist[i].fault # "none"))
    => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
