------------------------------ MODULE Adaptive ------------------------------
(***************************************************************************)
(* Adaptive MPS (C10, C13, C20): the counter of inputs, the switches of    *)
(* the merge pattern by unmerging and merging lists of modules, and the    *)
(* parameter objects of both patterns.                                     *)
(*                                                                         *)
(* Unmerge and Merge are the algorithms of the implementation on symbolic  *)
(* modules [kind, c]: kind "region" (input cores), "site" (one input core),*)
(* "out", "pairs" (merged pairs of input cores), "ol", "or"; c is the      *)
(* sequence of the positions of its cores. Correct says that they give     *)
(* the patterns of Pairing for every N and label, at every point of the    *)
(* schedule. The parameters of a pattern are objects which stay the same;  *)
(* val is the version of the function which they hold. Variant:            *)
(*   design                                                                *)
(*   dropped    a sweep loses the last module if nothing merges with it    *)
(*   lonely     two neighbouring lone input cores aren't recombined        *)
(*   anywhere   lone cores are merged at any position                      *)
(*   detached   a switch makes new parameter objects                       *)
(*   stale      a switch doesn't update the values of the other pattern    *)
(*   reset      the counter restarts from zero at a switch                 *)
(*   late       a switch only happens when the count exceeds the threshold *)
(*   half       the merge state isn't part of the saved state              *)
(***************************************************************************)
EXTENDS Pairing, Json

CONSTANTS MaxN, Thresholds, Batches, MaxLen, MaxInst, Variant, Ops, Emit

VARIABLES N, label, T, inst, hist
vars == <<N, label, T, inst, hist>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

M(kind, c) == [kind |-> kind, c |-> c]

\* ---- merging ----

Inner(c) == IF c = <<>> THEN <<>> ELSE <<M("pairs", c)>>

\* InputRegion._merge
MergeRegion(c, off) ==
    LET n == Len(c) par == n % 2 IN
    CASE n = 0 -> <<>>
      [] n > 0 /\ off = 1 /\ par = 1 -> <<M("site", <<c[1]>>)>> \o Inner(SubSeq(c, 2, n))
      [] n > 0 /\ off = 1 /\ par = 0 ->
           <<M("site", <<c[1]>>)>> \o Inner(SubSeq(c, 2, n - 1)) \o <<M("site", <<c[n]>>)>>
      [] n > 0 /\ off = 0 /\ par = 1 -> Inner(SubSeq(c, 1, n - 1)) \o <<M("site", <<c[n]>>)>>
      [] OTHER -> Inner(c)

RECURSIVE MergeInside(_, _, _)
MergeInside(ms, k, site) ==
    IF k > Len(ms) THEN <<>>
    ELSE (IF ms[k].kind = "region" THEN MergeRegion(ms[k].c, site % 2) ELSE <<ms[k]>>)
         \o MergeInside(ms, k + 1, site + Len(ms[k].c))

Combine(a, b, merging) ==
    CASE merging /\ a.kind = "site" /\ b.kind = "out" -> <<M("or", a.c \o b.c)>>
      [] merging /\ a.kind = "out" /\ b.kind = "site" -> <<M("ol", a.c \o b.c)>>
      [] ~merging /\ a.kind \in {"region", "site"} /\ b.kind \in {"region", "site"}
           /\ ~(a.kind = "region" /\ b.kind = "region")
           /\ ~(Variant = "lonely" /\ a.kind = "site" /\ b.kind = "site") ->
             <<M("region", a.c \o b.c)>>
      [] OTHER -> <<>>

RECURSIVE Sweep(_, _, _, _, _)
Sweep(ms, k, site, off, merging) ==
    IF k > Len(ms) THEN <<>>
    ELSE IF k = Len(ms) THEN <<ms[k]>>
    ELSE LET new == Combine(ms[k], ms[k + 1], merging)
             here == ~merging \/ Variant = "anywhere" \/ off = site % 2
         IN  IF new = <<>> \/ ~here
             THEN <<ms[k]>> \o Sweep(ms, k + 1, site + Len(ms[k].c), off, merging)
             ELSE new \o (IF Variant = "dropped" /\ k + 2 = Len(ms) + 1 THEN <<>>
                          ELSE Sweep(ms, k + 2, site + Len(new[1].c), off, merging))

RECURSIVE Sweeps(_, _, _)
Sweeps(ms, off, merging) ==
    LET new == IF Variant = "dropped" /\ Len(ms) = 1 THEN <<>> ELSE Sweep(ms, 1, 0, off, merging)
    IN  IF Len(new) = Len(ms) THEN new ELSE Sweeps(new, off, merging)

Merge(ms, off) == Sweeps(MergeInside(ms, 1, off), off, TRUE)

\* ---- unmerging ----

UnmergeOne(m) ==
    CASE m.kind = "pairs" -> <<M("region", m.c)>>
      [] m.kind = "ol" -> <<M("out", <<m.c[1]>>), M("site", <<m.c[2]>>)>>
      [] m.kind = "or" -> <<M("site", <<m.c[1]>>), M("out", <<m.c[2]>>)>>
      [] OTHER -> <<m>>

Unmerge(ms) == Sweeps(Cat([k \in 1..Len(ms) |-> UnmergeOne(ms[k])]), 0, FALSE)

Range0(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]

Unmerged ==
    (IF label > 0 THEN <<M("region", Range0(0, label - 1))>> ELSE <<>>)
    \o <<M("out", <<label>>)>>
    \o (IF label < N THEN <<M("region", Range0(label + 1, N))>> ELSE <<>>)

\* Blocks of a list of modules
BlocksOfModule(m) ==
    CASE m.kind = "pairs" ->
           [j \in 1..(Len(m.c) \div 2) |-> [kind |-> "pair", p |-> m.c[(2 * j) - 1], n |-> 2]]
      [] m.kind = "region" ->
           [j \in 1..Len(m.c) |-> [kind |-> "in", p |-> m.c[j], n |-> 1]]
      [] m.kind = "site" -> <<[kind |-> "in", p |-> m.c[1], n |-> 1]>>
      [] OTHER -> <<[kind |-> m.kind, p |-> m.c[1], n |-> Len(m.c)]>>

BlocksOf(ms) == Cat([k \in 1..Len(ms) |-> BlocksOfModule(ms[k])])

(***************************************************************************)
(* Instances: off, cnt; list[off + 1] modules of both patterns; obj: the   *)
(* objects which hold their parameters; val: versions which these hold;    *)
(* opt: objects an optimizer was created for; fn: version of the function  *)
(***************************************************************************)
Fresh(id) ==
    [off |-> 0, cnt |-> 0, list |-> <<Merge(Unmerged, 0), Merge(Unmerged, 1)>>,
     obj |-> <<2 * id, (2 * id) + 1>>, val |-> <<1, 1>>, opt |-> {2 * id, (2 * id) + 1},
     fn |-> 1, total |-> 0, flips |-> 0, next |-> 100 * id]

Init ==
    /\ N \in 1..MaxN
    /\ label \in 0..N
    /\ T \in Thresholds
    /\ inst = <<Fresh(1)>>
    /\ hist = <<>>

Log(a) == hist' = Append(hist, a)

Due(x) == IF Variant = "late" THEN x.cnt > T ELSE x.cnt >= T

Switched(x) ==
    LET un == Unmerge(x.list[x.off + 1])
        new == 1 - x.off
    IN  [x EXCEPT !.off = new,
             !.cnt = IF Variant = "reset" THEN 0 ELSE @ - T,
             !.list = [@ EXCEPT ![new + 1] = Merge(un, new)],
             !.obj = IF Variant = "detached" THEN [@ EXCEPT ![new + 1] = x.next] ELSE @,
             !.next = @ + 1,
             !.val = IF Variant = "stale" THEN @ ELSE [@ EXCEPT ![new + 1] = x.val[x.off + 1]],
             !.flips = @ + 1]

Call(m, b) ==
    LET x == inst[m]
        y == IF Due(x) THEN Switched(x) ELSE x
    IN  /\ inst' = [inst EXCEPT ![m] = [y EXCEPT !.cnt = @ + b, !.total = x.total + b]]
        /\ Log([op |-> "call", m |-> m, size |-> b])

\* One step of the optimizer after a call
Train(m, b) ==
    LET x == inst[m]
        y == IF Due(x) THEN Switched(x) ELSE x
        z == [y EXCEPT !.cnt = @ + b, !.total = x.total + b]
    IN  /\ inst' = [inst EXCEPT ![m] =
              [z EXCEPT !.fn = @ + 1,
                        !.val = IF z.obj[z.off + 1] \in z.opt
                                THEN [@ EXCEPT ![z.off + 1] = z.fn + 1] ELSE @]]
        /\ Log([op |-> "train", m |-> m, size |-> b])

\* Parameters of the current pattern are set by hand
Set(m) ==
    /\ inst' = [inst EXCEPT ![m] =
          [@ EXCEPT !.fn = @ + 1, !.val = [@ EXCEPT ![inst[m].off + 1] = inst[m].fn + 1]]]
    /\ Log([op |-> "set", m |-> m])

Copy(m, how) ==
    LET id == Len(inst) + 1
        x == inst[m]
        y == [Fresh(id) EXCEPT !.val = x.val, !.fn = x.fn, !.total = x.total, !.flips = x.flips,
                !.off = IF Variant = "half" THEN 0 ELSE x.off,
                !.cnt = IF Variant = "half" THEN 0 ELSE x.cnt]
    IN  /\ Len(inst) < MaxInst
        /\ inst' = Append(inst, y)
        /\ Log([op |-> "copy", m |-> m, how |-> how])

Assign(m, f) ==
    /\ inst' = [inst EXCEPT ![m] =
          [@ EXCEPT !.val = inst[f].val, !.fn = inst[f].fn, !.total = inst[f].total,
                    !.flips = inst[f].flips,
                    !.off = IF Variant = "half" THEN @ ELSE inst[f].off,
                    !.cnt = IF Variant = "half" THEN @ ELSE inst[f].cnt]]
    /\ Log([op |-> "assign", m |-> m, from |-> f])

Next ==
    /\ Len(hist) < MaxLen
    /\ UNCHANGED <<N, label, T>>
    /\ \E m \in 1..Len(inst) :
         \/ "call" \in Ops /\ \E b \in Batches : Call(m, b)
         \/ "train" \in Ops /\ \E b \in Batches : b > 0 /\ Train(m, b)
         \/ "set" \in Ops /\ Set(m)
         \/ "copy" \in Ops /\ \E how \in {"deepcopy", "state", "file", "pickle"} : Copy(m, how)
         \/ "assign" \in Ops /\ \E f \in 1..Len(inst) : f # m /\ Assign(m, f)

\* ---- properties ----

\* Modules of both patterns
Correct ==
    \A m \in 1..Len(inst) : \A o \in {0, 1} :
        BlocksOf(inst[m].list[o + 1]) = Pattern(N, label, o)

\* Unmerging recovers the cores, all in order
Recovers ==
    \A o \in {0, 1} : BlocksOf(Unmerge(Merge(Unmerged, o))) = BlocksOf(Unmerged)

\* Every core belongs to exactly one block, and neighbours are merged in pairs
Partition ==
    \A o \in {0, 1} :
        LET bs == Pattern(N, label, o) IN
        /\ Cat([k \in 1..Len(bs) |-> Range0(bs[k].p, bs[k].p + bs[k].n - 1)]) = Range0(0, N)
        /\ \A k \in 1..Len(bs) : bs[k].n = 2 => bs[k].p % 2 = o
        /\ \A k \in 1..Len(bs) : bs[k].n = 1 => bs[k].p = 0 \/ bs[k].p = N

\* Number of switches which a history of calls leads to
RECURSIVE Ideal(_, _, _)
Ideal(k, cnt, fl) ==
    IF k > Len(hist) THEN <<cnt, fl>>
    ELSE IF hist[k].op \in {"call", "train"} /\ hist[k].m = 1
    THEN IF cnt >= T THEN Ideal(k + 1, (cnt - T) + hist[k].size, fl + 1)
         ELSE Ideal(k + 1, cnt + hist[k].size, fl)
    ELSE Ideal(k + 1, cnt, fl)

Scheduled ==
    /\ \A m \in 1..Len(inst) :
          /\ inst[m].total = inst[m].cnt + (T * inst[m].flips)
          /\ inst[m].off = inst[m].flips % 2
          /\ inst[m].cnt >= 0
    /\ ("assign" \notin Ops) =>
          Ideal(1, 0, 0) = <<inst[1].cnt, inst[1].flips>>

\* The function is the one which the parameters in use hold
Attached ==
    \A m \in 1..Len(inst) :
        /\ inst[m].val[inst[m].off + 1] = inst[m].fn
        /\ \A o \in {1, 2} : inst[m].obj[o] \in inst[m].opt

\* The switch happens when it should: checked on the state before a call
Prompt == [][\A m \in 1..Len(inst) :
                (Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"call", "train"}
                   /\ hist'[Len(hist')].m = m)
                => inst'[m].flips = inst[m].flips + (IF inst[m].cnt >= T THEN 1 ELSE 0)]_vars

View == <<N, label, T, inst, Len(hist)>>

Emitted == (Emit /\ Len(hist) = MaxLen) => PrintT(<<"BEH", ToJson([N |-> N, label |-> label, T |-> T, ev |-> hist])>>)
=============================================================================
