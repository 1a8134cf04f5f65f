----------------------------- MODULE RefuseOps -----------------------------
(***************************************************************************)
(* Calls of a model which may have to be refused (C22). The state is the   *)
(* merge pattern and the count of an adaptive model (both stay 0 for the   *)
(* others), the registered map and a version of the parameters. A call has *)
(* an op and a fault ("none": valid in every state).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Start == [off |-> 0, cnt |-> 0, map |-> 0, ver |-> 1]

Due(cfg, x) == cfg.adaptive /\ x.cnt >= cfg.T

\* A truncation which removes everything only hurts when a switch is due and
\* something is merged in the current pattern (of N + 1 cores), and the data which break the registered map only when that is in use
Refused(cfg, x, c) ==
    CASE c.fault = "none" -> FALSE
      [] c.fault = "cut" -> Due(cfg, x) /\ cfg.N >= 1 + x.off
      [] c.fault = "data" -> x.map # 0
      [] OTHER -> TRUE

Accepted(cfg, x, c) ==
    CASE c.op = "call" ->
           LET y == IF Due(cfg, x) THEN [x EXCEPT !.off = 1 - @, !.cnt = @ - cfg.T, !.ver = @ + 1] ELSE x
           IN  IF cfg.adaptive THEN [y EXCEPT !.cnt = @ + c.size] ELSE y
      [] c.op = "map" -> [x EXCEPT !.map = c.v]
      [] c.op = "step" -> [x EXCEPT !.ver = @ + 1]

Effect(cfg, x, c) == IF Refused(cfg, x, c) THEN x ELSE Accepted(cfg, x, c)
=============================================================================
