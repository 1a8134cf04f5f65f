------------------------------ MODULE J_Shape ------------------------------
(* Trace validation for the broadcasting helpers (C18) *)
EXTENDS Shapes, TraceFile

VARIABLES s, k, st, out

Start(ses) == <<>>
V(x, v) == [st |-> x, out |-> v]

Same(a, b) == a.shape = b.shape /\ a.data = b.data
AllSame(as, bs) == Len(as) = Len(bs) /\ \A i \in 1..Len(as) : Same(as[i], bs[i])

Judge(e) ==
    CASE e.op = "shape" ->
           IF ~Compatible(e.shapes)
           THEN IF e.raised THEN "ok" ELSE "incompatible shapes were broadcast"
           ELSE IF e.raised THEN "compatible shapes were refused"
           ELSE IF e.res # Common(e.shapes) THEN "common shape" ELSE "ok"
      [] e.op = "broadcast" ->
           IF Len(e.ts) < 2
           THEN IF ~e.raised /\ AllSame(e.res, e.ts) THEN "ok" ELSE "fewer than two tensors were changed"
           ELSE IF ~Compatible(Batches(e.ts, e.nnb))
           THEN IF e.raised THEN "ok" ELSE "incompatible batch shapes were broadcast"
           ELSE IF e.raised THEN "compatible batch shapes were refused"
           ELSE LET want == TLCEval(BroadcastAll(e.ts, e.nnb))
                IN  IF Len(e.res) # Len(want) THEN "number of tensors"
                    ELSE IF \E i \in 1..Len(want) : e.res[i].shape # want[i].shape THEN "shape of a tensor"
                    ELSE IF AllSame(e.res, want) THEN "ok" ELSE "entries of a tensor"
      [] e.op = "batch_to" ->
           LET pair == <<BatchPart(e.t, e.nnb), e.shape>>
           IN  IF ~Compatible(pair) \/ Common(pair) # e.shape
               THEN IF e.raised THEN "ok" ELSE "tensor which doesn't fit into the batch shape"
               ELSE IF e.raised THEN "tensor which fits was refused"
               ELSE IF Same(e.res, TLCEval(Expanded(e.t, e.shape \o OtherPart(e.t, e.nnb)))) THEN "ok"
               ELSE "tensor expanded to a batch shape"
      [] e.op = "bundle" ->
           IF Len(e.ts) = 0 \/ \E i \in 1..Len(e.ts) : e.ts[i].shape # e.ts[1].shape
           THEN IF e.unchanged THEN "ok" ELSE "collection which can't be bundled was changed"
           ELSE IF Len(e.res) # 1 THEN "tensors of equal shapes weren't bundled"
           ELSE IF Same(e.res[1], TLCEval(Stacked(e.ts, e.dim))) THEN "ok" ELSE "bundled tensor"
      [] e.op = "index" ->
           \* src has the numbers of the entries which are picked
           IF e.res.shape # e.src.shape THEN "shape of indexed tensor"
           ELSE IF \E j \in 1..Len(e.res.data) : e.res.data[j] # e.t.data[e.src.data[j] + 1]
           THEN "entries of indexed tensor" ELSE "ok"
      [] e.op = "trace" ->
           LET n == e.t.shape[1]
               RECURSIVE Diag(_)
               Diag(i) == IF i = 0 THEN 0 ELSE Diag(i - 1) + e.t.data[((i - 1) * n) + i][1]
           IN  IF e.far THEN (IF e.raised THEN "ok" ELSE "trace with an imaginary part was taken for real")
               ELSE IF e.raised THEN "trace of a Hermitian matrix was refused"
               ELSE IF e.res # Diag(n) \/ ~e.isreal THEN "trace of a Hermitian matrix" ELSE "ok"
      [] e.op = "real" ->
           IF e.far THEN (IF e.raised THEN "ok" ELSE "tensor with an imaginary part was taken for real")
           ELSE IF e.raised THEN "real tensor was refused"
           ELSE IF e.isreal /\ e.res.shape = e.t.shape
                   /\ \A j \in 1..Len(e.res.data) : e.res.data[j] = e.t.data[j][1] THEN "ok"
           ELSE "real part of a tensor"
      [] e.op = "fact" -> IF e.holds THEN "ok" ELSE e.what
      [] OTHER -> "unknown event"

Step(ses, x, e) == V(x, Judge(e))

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
