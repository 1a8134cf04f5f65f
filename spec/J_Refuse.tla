------------------------------ MODULE J_Refuse ------------------------------
(***************************************************************************)
(* Trace validation for refused calls (C22). A session either has calls of *)
(* public functions with the arguments and whether they raised an error    *)
(* ("try"), or the life of a model next to a twin which only gets the      *)
(* calls which have to be accepted ("did").                                *)
(***************************************************************************)
EXTENDS Valid, RefuseOps, TraceFile

VARIABLES s, k, st, out

Ok(x, v) == [st |-> x, out |-> v]

StartOf(ses) == Start

Step(ses, x, e) ==
    CASE e.op = "try" ->
           LET v == Valid(e.f, e.a) IN
           Ok(x, IF v = ~e.raised THEN "ok"
                 ELSE IF v THEN "valid arguments were refused (" \o e.f \o ")"
                 ELSE "invalid arguments were accepted (" \o e.f \o ")")
      [] e.op = "did" ->
           LET ref == Refused(ses, x, e.call)
               y == [Effect(ses, x, e.call) EXCEPT !.ver = 0]
           IN  IF e.raised # ref
               THEN Ok(x, IF ref THEN "an invalid call was accepted (" \o e.how \o ")"
                          ELSE "a valid call was refused (" \o e.how \o ")")
               ELSE IF ref /\ ~e.same THEN Ok(x, "a refused call changed the model (" \o e.how \o ")")
               ELSE IF [off |-> e.off, cnt |-> e.cnt, map |-> e.map, ver |-> 0] # y
               THEN Ok(x, "merge state or feature map after a call (" \o e.how \o ")")
               ELSE IF ~e.twin THEN Ok(x, "the model differs from one without the refused calls (" \o e.how \o ")")
               ELSE Ok(y, "ok")
      [] OTHER -> Ok(x, "unknown event")

INSTANCE TraceRun WITH StartOp <- StartOf, StepOp <- Step
=============================================================================
