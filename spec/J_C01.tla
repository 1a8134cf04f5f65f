------------------------------- MODULE J_C01 -------------------------------
(***************************************************************************)
(* Trace validation for C01 (and the outputs in C02, C03): every recorded  *)
(* output row is the contraction of the model's cores with the input row.  *)
(* Events "rows" hold the distinct pairs (input row, output row) which     *)
(* were observed in a batch.                                               *)
(***************************************************************************)
EXTENDS MPSModel, TraceFile

VARIABLES s, k, st, out

\* Features of the sites for one input row, routed along the path
Routed(ses, x) ==
    IF ses.path = <<>> THEN x
    ELSE Vec(Len(ses.path), LAMBDA n : x[ses.path[n] + 1])

Feats(ses, x) ==
    LET y == Routed(ses, x)
    IN  IF ses.raw THEN Vec(Len(y), LAMBDA n : DefaultEmbed(y[n])) ELSE y

ModelOf(ses) ==
    [cores |-> ses.cores, biasL |-> ses.biasL, biasR |-> ses.biasR,
     outcore |-> ses.outcore,
     label |-> ses.label, periodic |-> ses.periodic]

BadRows(ses, m, e) ==
    {i \in 1..Len(e.rows) :
        e.rows[i].y # Output(m, Feats(ses, e.rows[i].x))}

Start(ses) == ModelOf(ses)

Step(ses, m, e) ==
    CASE e.op = "rows" ->
            [out |->
               IF e.shape # <<e.batch, Len(m.outcore)>>
               THEN "shape of the output"
               ELSE IF BadRows(ses, m, e) # {}
               THEN "output is not the contraction of the cores (" \o e.how \o ")"
               ELSE "ok",
             st |-> m]
      [] e.op = "params" ->
            \* The driver has set new values of the parameters
            [out |-> "ok",
             st |-> [m EXCEPT !.cores = e.cores, !.biasL = e.biasL, !.biasR = e.biasR,
                              !.outcore = e.outcore]]
      [] OTHER -> [out |-> "unknown event", st |-> m]

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
