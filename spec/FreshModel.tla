----------------------------- MODULE FreshModel -----------------------------
(***************************************************************************)
(* Freshly built models compute constants (C21): a supervised model with   *)
(* bias or with adaptive bonds returns ones (open boundaries) or the       *)
(* dimension of its initial bonds (periodic ones) for raw data, and a      *)
(* sequence model with bias and fixed ends returns ones for as many        *)
(* outputs as there are bond dimensions. The state is the options and the  *)
(* input, which grows. Broken variants: "full" doesn't truncate adaptive   *)
(* identities, "nobias" has bias matrices of zero.                         *)
(***************************************************************************)
EXTENDS InitOps

CONSTANTS MaxN, MaxD, MaxO, Values, How

VARIABLES o, x
vars == <<o, x>>

Sup == UNION {[type : {"sup"}, N : {n}, O : 1..MaxO, D : 1..MaxD, d : {2}, label : 0..n,
               periodic : BOOLEAN, adaptive : BOOLEAN, bias : {TRUE}, path : {<<>>}] : n \in 1..MaxN}
TI == [type : {"ti"}, O : 1..MaxO, D : 1..MaxD, d : {2}, bias : {TRUE}, N : {MaxN}]

Init == o \in Sup \cup TI /\ x = <<>>
Next == Len(x) < o.N /\ \E v \in Values : x' = Append(x, Md(v)) /\ o' = o

Made ==
    LET m == IF o.type = "ti" THEN FreshTI(o) ELSE FreshSup(o)
    IN  IF How = "full" /\ o.type = "sup" /\ o.adaptive
        THEN [m EXCEPT !.cores = FreshSup([o EXCEPT !.O = o.D]).cores, !.outcore = Vec(o.O, LAMBDA j : Eye(o.D))]
        ELSE IF How = "nobias" THEN [m EXCEPT !.biasL = IF @ = <<>> THEN @ ELSE Zeros(o.D, o.D)]
        ELSE m

Want ==
    IF o.type = "ti" THEN Vec(o.O, LAMBDA j : IF j <= o.D THEN 1 ELSE 0)
    ELSE Vec(o.O, LAMBDA j : IF ~o.periodic THEN 1 ELSE IF o.adaptive THEN Min2(o.O, o.D) ELSE o.D)

Constant == (o.type = "ti" \/ Len(x) = o.N) => OutOf(Made, TRUE, x) = Want
=============================================================================
