------------------------------- MODULE J_C04 -------------------------------
(* Trace validation for C04: contraction of matrix sequences               *)
EXTENDS MatSeq, TraceFile

VARIABLES s, k, st, out

Operands(ses) == ses.left \o ses.mats \o ses.right

Start(ses) ==
    LET ops == Operands(ses)
    IN  IF ses.kind = "undefined" THEN <<>>
        ELSE Expected(ops, ses.extra, ses.dim, AnyComplex(ops),
                      ses.left # <<>>, ses.right # <<>>)

Step(ses, x, e) ==
    [st |-> x,
     out |->
       CASE e.op = "product" ->
              LET v == ProductVerdict(x, e.res)
              IN  IF v = "ok" THEN "ok" ELSE v \o " (" \o e.how \o ")"
         [] e.op = "inputs" ->
              IF e.same THEN "ok" ELSE "inputs were modified"
         [] e.op = "refused" ->
              \* Products which aren't defined have to be refused
              IF e.refused THEN "ok" ELSE "undefined product wasn't refused"
         [] OTHER -> "unknown event"]

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
