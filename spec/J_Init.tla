------------------------------ MODULE J_Init ------------------------------
(* Trace validation for initial tensors and freshly built models (C21) *)
EXTENDS InitOps, TraceFile

VARIABLES s, k, st, out

Start(ses) == <<>>
V(x, v) == [st |-> x, out |-> v]

Abs(a) == IF a < 0 THEN 0 - a ELSE a

\* Parameters of a fresh model: the roles of its tensors and their shapes
Tensors(o) ==
    IF o.type = "ti"
    THEN <<[name |-> "core", shape |-> <<o.D, o.D, o.d>>, trains |-> TRUE]>>
         \o (IF o.bias THEN <<[name |-> "bias", shape |-> <<o.D, o.D>>, trains |-> ~o.fixedbias]>> ELSE <<>>)
         \o <<[name |-> "init", shape |-> <<o.D>>, trains |-> ~o.fixedends],
              [name |-> "term", shape |-> <<o.D, o.O>>, trains |-> ~o.fixedends]>>
    ELSE IF o.type = "sup"
    THEN (IF o.label > 0 THEN <<[name |-> "left", shape |-> <<o.label, o.D, o.D, o.d>>, trains |-> TRUE]>>
                              \o (IF o.bias THEN <<[name |-> "biasL", shape |-> <<1, o.D, o.D>>, trains |-> TRUE]>>
                                  ELSE <<>>)
          ELSE <<>>)
         \o <<[name |-> "output", shape |-> <<o.O, o.D, o.D>>, trains |-> TRUE]>>
         \o (IF o.label < o.N THEN <<[name |-> "right", shape |-> <<o.N - o.label, o.D, o.D, o.d>>, trains |-> TRUE]>>
                              \o (IF o.bias THEN <<[name |-> "biasR", shape |-> <<1, o.D, o.D>>, trains |-> TRUE]>>
                                  ELSE <<>>)
             ELSE <<>>)
    ELSE <<[name |-> "core", shape |-> (IF o.N = 0 THEN <<>> ELSE <<o.N>>) \o <<o.d, o.D, o.D>>, trains |-> TRUE],
           [name |-> "edge", shape |-> <<2, o.D>>, trains |-> TRUE]>>
         \o (IF o.bias THEN <<[name |-> "bias", shape |-> <<o.D, o.D>>, trains |-> TRUE]>> ELSE <<>>)

Judge(e) ==
    CASE e.op = "tensor" ->
           IF e.res.shape # e.shape THEN "shape of an initial tensor"
           ELSE IF e.res.data # Documented(e.shape, e.labels, e.method, e.dim)
           THEN "entries of an initial tensor without noise" ELSE "ok"
      [] e.op = "neareye" ->
           IF e.res.shape # e.shape THEN "shape of an initial core"
           ELSE IF e.res.data # NearEye(e.shape) THEN "core without noise isn't an identity"
           ELSE IF e.iscomplex # e.complex THEN "kind of numbers of an initial core" ELSE "ok"
      [] e.op = "zero" ->
           IF e.res.shape # e.shape THEN "shape of an initial core"
           ELSE IF e.res.data # Vec(Size(e.shape), LAMBDA i : 0) THEN "normal core without noise isn't zero"
           ELSE IF e.iscomplex # e.complex THEN "kind of numbers of an initial core" ELSE "ok"
      [] e.op = "noise" ->
           \* Moments of the noise in units of the documented deviation, times 1000
           IF Abs(e.mean) > e.tolmean THEN "mean of the noise"
           ELSE IF Abs(e.var - 1000) > e.tolvar THEN "size of the noise"
           ELSE IF \E i \in 1..Len(e.slices) : Abs(e.slices[i] - 1000) > e.tolslice THEN "size of the noise somewhere"
           ELSE IF ~e.distinct THEN "entries with equal noise"
           ELSE "ok"
      [] e.op = "fresh" ->
           IF e.tensors # Tensors(e.o) THEN "parameters of a fresh model"
           ELSE IF e.attrs # e.wanted THEN "options of a fresh model"
           ELSE "ok"
      [] e.op = "values" ->
           LET m == TLCEval(IF e.o.type = "ti" THEN FreshTI(e.o) ELSE FreshSup(e.o))
           IN  IF e.o.type = "sup"
               THEN IF e.model.cores = m.cores /\ e.model.outcore = m.outcore
                       /\ (m.biasL = <<>> \/ ((e.o.label > 0 => e.model.biasL = m.biasL)
                                              /\ (e.o.label < e.o.N => e.model.biasR = m.biasR)))
                    THEN "ok" ELSE "initial values of a model"
               ELSE IF e.model.cores = m.cores /\ e.model.biasL = m.biasL /\ e.model.init = m.init
                       /\ (e.o.fixedends => e.model.term = m.term)
                    THEN "ok" ELSE "initial values of a sequence model"
      [] e.op = "rows" ->
           LET m == TLCEval(IF e.o.type = "ti" THEN FreshTI(e.o) ELSE FreshSup(e.o))
           IN  IF e.shape # <<e.batch, e.o.O>> THEN "shape of the output of a fresh model"
               ELSE IF \E i \in 1..Len(e.rows) : e.rows[i].y # OutOf(m, e.raw, e.rows[i].x)
               THEN "output of a fresh model" ELSE "ok"
      [] e.op = "reports" ->
           LET n == e.o.N + 2
           IN  IF e.bonds # Vec(n, LAMBDA i : IF ~e.o.periodic /\ i \in {1, n} THEN 1 ELSE e.o.D)
               THEN "initial bond dimensions"
               ELSE IF e.svshape # <<n, e.o.D>> \/ ~e.svempty THEN "initial singular values" ELSE "ok"
      [] e.op = "ends" ->
           \* Boundary modules, evaluated for some batch size
           IF e.kind # (IF e.what = "vector" THEN IF e.left THEN "left" ELSE "right"
                        ELSE IF e.left THEN "oleft" ELSE "oright") THEN "kind of a boundary tensor"
           ELSE IF e.res.shape # (IF e.what = "vector" THEN <<e.batch, e.D>> ELSE <<e.batch, e.D, e.O>>)
           THEN "shape of a boundary tensor"
           ELSE IF e.res.data # Vec(Size(e.res.shape), LAMBDA i :
                    IF e.what = "vector" THEN (IF At(e.res.shape, i, 2) <= e.fill THEN 1 ELSE 0)
                    ELSE (IF At(e.res.shape, i, 2) = At(e.res.shape, i, 3) THEN 1 ELSE 0))
           THEN "entries of a boundary tensor"
           ELSE IF e.trains # ~e.fixed THEN "trainable boundary tensor" ELSE "ok"
      [] e.op = "fact" -> IF e.holds THEN "ok" ELSE e.what
      [] OTHER -> "unknown event"

Step(ses, x, e) == V(x, Judge(e))

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
