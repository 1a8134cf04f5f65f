------------------------------- MODULE J_Map -------------------------------
(***************************************************************************)
(* Trace validation for registrations of feature maps (C16). The state has *)
(* the maps (objects) with their coefficients, and instances with their    *)
(* parameters and the object which is registered (0: default map).         *)
(***************************************************************************)
EXTENDS Chain, TraceFile

VARIABLES s, k, st, out

Start(ses) ==
    [objs |-> ses.maps,
     insts |-> [i \in 1..Len(ses.models) |-> [par |-> ses.models[i], map |-> 0]]]

Ok(x, v) == [st |-> x, out |-> v]

\* The parameters with the map which is registered now
Now(x, m) ==
    LET r == x.insts[m]
    IN  [r.par EXCEPT !.fmap = IF r.map = 0 THEN <<>> ELSE x.objs[r.map].coefs]

OutDim(m) == IF m.type = "ti" THEN Cols(m.term) ELSE Len(m.outcore)
IsModule(x, v) == v > 0 /\ x.objs[v].kind = "mod"

\* Features of any number work for the default map only if there are two
Embeds(ses, x, m) == x.insts[m].map # 0 \/ ses.d = 2

Step(ses, x, e) ==
    CASE e.op = "register" ->
           IF e.raised THEN Ok(x, "a valid feature map was rejected")
           ELSE Ok([x EXCEPT !.insts[e.m].map = e.v], "ok")
      [] e.op = "reject" ->
           Ok(x, IF e.raised THEN "ok" ELSE "an invalid feature map was accepted")
      [] e.op = "rows" ->
           IF e.raw /\ ~Embeds(ses, x, e.m)
           THEN Ok(x, "raw data were embedded without a feature map")
           ELSE LET par == TLCEval(Now(x, e.m))
                IN  IF e.shape # <<e.batch, OutDim(par)>> THEN Ok(x, "shape of the output")
                    ELSE IF \E i \in 1..Len(e.rows) : e.rows[i].y # OutOf(par, e.raw, e.rows[i].x)
                    THEN Ok(x, "output isn't that of the registered feature map (" \o e.how \o ")")
                    ELSE Ok(x, "ok")
      [] e.op = "noraw" ->
           Ok(x, IF Embeds(ses, x, e.m) THEN "raw data were refused although they can be embedded"
                 ELSE "ok")
      [] e.op = "owned" ->
           LET v == x.insts[e.m].map
           IN  IF e.current # v THEN Ok(x, "feature_map isn't the registered one")
               ELSE IF e.ids # (IF IsModule(x, v) THEN <<v>> ELSE <<>>)
               THEN Ok(x, "parameters of the model and of its feature map")
               ELSE Ok(x, "ok")
      [] e.op = "coefs" -> Ok([x EXCEPT !.objs[e.v].coefs = e.coefs], "ok")
      [] e.op = "copy" ->
           LET r == x.insts[e.m]
           IN  IF IsModule(x, r.map)
               THEN Ok([objs |-> Append(x.objs, x.objs[r.map]),
                        insts |-> Append(x.insts, [r EXCEPT !.map = Len(x.objs) + 1])], "ok")
               ELSE Ok([x EXCEPT !.insts = Append(@, r)], "ok")
      [] e.op = "assign" ->
           \* State dictionary of another instance with the same kind of map
           LET r == x.insts[e.from] t == x.insts[e.m]
               y == [x EXCEPT !.insts[e.m].par = r.par]
           IN  Ok(IF IsModule(x, t.map) THEN [y EXCEPT !.objs[t.map].coefs = x.objs[r.map].coefs]
                  ELSE y, "ok")
      [] e.op = "params" -> Ok([x EXCEPT !.insts[e.m].par = e.model], "ok")
      [] e.op = "fact" -> Ok(x, IF e.holds THEN "ok" ELSE e.what)
      [] OTHER -> Ok(x, "unknown event")

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
