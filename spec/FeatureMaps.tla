---------------------------- MODULE FeatureMaps ----------------------------
(***************************************************************************)
(* Registration of feature maps (C16). An instance keeps its map either as *)
(* a plain attribute (functions, None) or as a submodule, which is how     *)
(* modules register what is assigned to them; a plain attribute hides a    *)
(* submodule of the same name. The design removes a submodule before       *)
(* assigning; the broken variants                                          *)
(*   nopop     assign only, which fails for a function after a module      *)
(*   hide      put functions into the plain attributes, so that a module   *)
(*             stays registered behind them                                *)
(*   early     assign before the map is validated                          *)
(*   reset     fall back to the default when a map is rejected             *)
(*   first     keep the first map which was registered                     *)
(* Objects 1..NF are functions, NF+1..NF+NM modules, 0 is None. Copies of  *)
(* an instance with a module have a copy of the module.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NF, NM, MaxInst, Depth, Variant, Emit

VARIABLES insts, kinds, hist
vars == <<insts, kinds, hist>>

Absent == 0 - 1
New == [attr |-> 0, sub |-> Absent, want |-> 0, failed |-> FALSE]

Init ==
    /\ insts = <<New>>
    /\ kinds = [i \in 1..(NF + NM) |-> IF i <= NF THEN "fun" ELSE "mod"]
    /\ hist = <<>>

Kind(v) == IF v = 0 THEN "none" ELSE kinds[v]

\* Assignment as a module does it
Assign(x, v) ==
    IF Kind(v) = "mod" THEN [x EXCEPT !.attr = Absent, !.sub = v]
    ELSE IF x.sub # Absent
         THEN IF v = 0 THEN [x EXCEPT !.sub = 0] ELSE [x EXCEPT !.failed = TRUE]
         ELSE [x EXCEPT !.attr = v]

Registered(x, v) ==
    CASE Variant = "nopop" -> Assign(x, v)
      [] Variant = "hide" -> IF Kind(v) = "mod" THEN [x EXCEPT !.attr = Absent, !.sub = v]
                             ELSE [x EXCEPT !.attr = v]
      [] Variant = "first" -> IF x.want # 0 THEN x ELSE Assign([x EXCEPT !.sub = Absent], v)
      [] OTHER -> Assign([x EXCEPT !.sub = Absent], v)

Rejected(x) ==
    CASE Variant = "early" -> [x EXCEPT !.sub = Absent, !.attr = Absent - 1]
      [] Variant = "reset" -> [x EXCEPT !.sub = Absent, !.attr = 0]
      [] OTHER -> x

Log(a) == hist' = Append(hist, a)

Register(m, v) ==
    /\ insts' = [insts EXCEPT ![m] = [Registered(@, v) EXCEPT !.want = v]]
    /\ UNCHANGED kinds
    /\ Log([op |-> "register", m |-> m, v |-> v])

Reject(m, how) ==
    /\ insts' = [insts EXCEPT ![m] = Rejected(@)]
    /\ UNCHANGED kinds
    /\ Log([op |-> "reject", m |-> m, how |-> how])

\* Attributes hide submodules
Current(x) == IF x.attr # Absent THEN x.attr ELSE x.sub

Copy(m, how) ==
    /\ Len(insts) < MaxInst
    /\ LET x == insts[m] IN
       IF Kind(x.want) = "mod"
       THEN /\ kinds' = Append(kinds, "mod")
            /\ insts' = Append(insts, [x EXCEPT !.sub = Len(kinds) + 1, !.want = Len(kinds) + 1])
       ELSE kinds' = kinds /\ insts' = Append(insts, x)
    /\ Log([op |-> "copy", m |-> m, how |-> how])

Observe(m, op) == UNCHANGED <<insts, kinds>> /\ Log([op |-> op, m |-> m])

Next ==
    /\ Len(hist) < Depth
    /\ \E m \in 1..Len(insts) :
         \/ \E v \in 0..(NF + NM) : Register(m, v)
         \/ \E how \in {"size", "raises"} : Reject(m, how)
         \/ Copy(m, "deepcopy")
         \/ \E op \in {"raw", "embedded", "train", "params"} : Observe(m, op)

AlwaysCurrent == \A i \in 1..Len(insts) : ~insts[i].failed /\ Current(insts[i]) = insts[i].want

\* Modules whose parameters belong to the instance
Owned(x) == IF x.sub > 0 THEN {x.sub} ELSE {}

OwnsItsModule == \A i \in 1..Len(insts) :
    Owned(insts[i]) = IF Kind(insts[i].want) = "mod" THEN {insts[i].want} ELSE {}

Emitted == (Emit /\ Len(hist) = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
