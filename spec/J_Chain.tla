------------------------------ MODULE J_Chain ------------------------------
(***************************************************************************)
(* Trace validation for sessions with any number of supervised and         *)
(* sequence models. The state of an instance is its parameters, and the    *)
(* backward calls whose gradients have been accumulated.                   *)
(*   rows     distinct pairs (row of the input, row of the output) of a    *)
(*            batch evaluated by instance m                                *)
(*   back     backpropagation of the combination w of the outputs of the   *)
(*            rows (with multiplicities)                                   *)
(*   zero     gradients are set to zero                                    *)
(*   grads    observed gradients of some parameters                        *)
(*   xgrads   observed gradients of the rows of an input, which are those  *)
(*            of the call alone                                            *)
(*   params   new values of parameters, feature map                        *)
(*   new / copy / assign   instances                                       *)
(*   fact     something observed directly                                  *)
(***************************************************************************)
EXTENDS Chain, TraceFile

VARIABLES s, k, st, out

Fresh(m) == [par |-> m, calls |-> <<>>, ok |-> {}]

Start(ses) == [i \in 1..Len(ses.models) |-> Fresh(ses.models[i])]

Ok(x, v) == [st |-> x, out |-> v]

CallGrad(c, par) ==
    Sum(Vec(Len(c.rows), LAMBDA b : DOut(c.par, c.raw, c.rows[b].x, c.rows[b].w, par)))

GradWanted(r, par) == Sum(Vec(Len(r.calls), LAMBDA j : CallGrad(r.calls[j], par)))

BadGrads(r, e) == {i \in 1..Len(e.par) : e.g[i] # GradWanted(r, e.par[i])}

OutDim(m) == IF m.type = "ti" THEN Cols(m.term) ELSE Len(m.outcore)

Step(ses, x, e) ==
    CASE e.op = "rows" ->
           LET r == x[e.m]
               new == {i \in 1..Len(e.rows) : <<e.raw, e.rows[i].x, e.rows[i].y>> \notin r.ok}
               bad == {i \in new : e.rows[i].y # OutOf(r.par, e.raw, e.rows[i].x)}
           IN  IF e.shape # <<e.batch, OutDim(r.par)>>
               THEN Ok(x, "shape of the output (" \o e.how \o ")")
               ELSE IF bad # {}
               THEN Ok(x, "output isn't what the parameters and that row give (" \o e.how \o ")")
               ELSE Ok([x EXCEPT ![e.m].ok =
                          @ \cup {<<e.raw, e.rows[i].x, e.rows[i].y>> : i \in new}], "ok")
      [] e.op = "back" ->
           Ok([x EXCEPT ![e.m].calls =
                 Append(@, [par |-> x[e.m].par, raw |-> e.raw, rows |-> e.rows])], "ok")
      [] e.op = "zero" -> Ok([x EXCEPT ![e.m].calls = <<>>], "ok")
      [] e.op = "grads" ->
           Ok(x, IF BadGrads(x[e.m], e) = {} THEN "ok"
                 ELSE "gradient of a parameter (" \o e.how \o ")")
      [] e.op = "xgrads" ->
           Ok(x, IF \A i \in 1..Len(e.par) :
                      e.g[i] = DOut(x[e.m].par, e.raw, e.row.x, e.row.w, e.par[i])
                 THEN "ok" ELSE "gradient of an input (" \o e.how \o ")")
      [] e.op = "params" -> Ok([x EXCEPT ![e.m].par = e.model, ![e.m].ok = {}], "ok")
      [] e.op = "new" -> Ok(Append(x, Fresh(e.model)), "ok")
      [] e.op = "copy" -> Ok(Append(x, Fresh(x[e.m].par)), "ok")
      [] e.op = "assign" ->
           Ok([x EXCEPT ![e.m].par = x[e.from].par, ![e.m].ok = {}], "ok")
      [] e.op = "fact" -> Ok(x, IF e.holds THEN "ok" ELSE e.what)
      [] OTHER -> Ok(x, "unknown event")

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
