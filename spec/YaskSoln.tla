------------------------------ MODULE YaskSoln ------------------------------
(* The observable state of a YASK solution and the effect of every public    *)
(* operation on it.  A state is a record                                     *)
(*   mem  values of every variable (see YaskDSL)                             *)
(*   fv   first valid step index of every variable                           *)
(* Operators named Do* give the next state, operators named Ok* say whether  *)
(* a result the implementation reported is one the operation may report.     *)
EXTENDS YaskDSL

(* Insert the step index into a tuple of non-step indices.                   *)
WithStep(V, tup, s) ==
    IF ~V.st THEN tup
    ELSE [k \in 1..(Len(tup) + 1) |->
            IF k < V.sp THEN tup[k] ELSE IF k = V.sp THEN s ELSE tup[k - 1]]
StepOf(V, ix) == IF V.st THEN ix[V.sp] ELSE 0
NoStep(V, ix) == IF ~V.st THEN ix
                 ELSE [k \in 1..(Len(ix) - 1) |-> IF k < V.sp THEN ix[k] ELSE ix[k + 1]]

InitMem(P, G) ==
    [v \in 1..Len(P.vars) |->
       [a \in 1..(IF P.vars[v].st THEN P.vars[v].al ELSE 1) |->
          TLCEval([n \in 1..G.vg[v].vol |-> 0])]]
InitSt(P, G) == [mem |-> InitMem(P, G), fv |-> [v \in 1..Len(P.vars) |-> 0]]

LastValid(P, st, v) == st.fv[v] + P.vars[v].al - 1

(* Is step s stored?  A variable without a step dimension has one "step".    *)
StepOk(P, st, v, s) == P.vars[v].st => st.fv[v] <= s /\ s <= LastValid(P, st, v)
(* Writing one element of step s makes s valid: the window moves just far    *)
(* enough to include it.                                                     *)
Include(P, st, v, s) ==
    IF ~P.vars[v].st \/ StepOk(P, st, v, s) THEN st
    ELSE [st EXCEPT !.fv[v] = IF s < st.fv[v] THEN s ELSE s - P.vars[v].al + 1]

-----------------------------------------------------------------------------
(* Host writes.                                                              *)
RECURSIVE FillSteps(_, _, _, _, _, _)
FillSteps(P, G, m, e, s, last) ==
    IF s > last THEN m
    ELSE LET V == P.vars[e.v]
             g == G.vg[e.v]
             b == TLCEval([n \in 1..g.vol |-> FillVal(e.seed, WithStep(V, g.tup[n], s))])
         IN  FillSteps(P, G, [m EXCEPT ![e.v][Slot(V, s)] = b], e, s + 1, last)
DoFill(P, G, st, e) == [st EXCEPT !.mem = FillSteps(P, G, st.mem, e, e.s0, e.s1)]

(* One element.                                                              *)
DoSet(P, G, st, e) ==
    LET V == P.vars[e.v]
        ix == NoStep(V, e.ix)
        n  == BoxFlat(V.lo, G.vg[e.v].str, ix)
    IN  [Include(P, st, e.v, StepOf(V, e.ix)) EXCEPT !.mem[e.v][Slot(V, StepOf(V, e.ix))][n] = e.val]
DoAdd(P, G, st, e) ==
    LET V == P.vars[e.v]
        ix == NoStep(V, e.ix)
        n  == BoxFlat(V.lo, G.vg[e.v].str, ix)
    IN  [st EXCEPT !.mem[e.v][Slot(V, StepOf(V, e.ix))][n] = @ + e.val]
ElemAt(P, G, st, v, ixs) ==
    LET V == P.vars[v]
    IN  st.mem[v][Slot(V, StepOf(V, ixs))][BoxFlat(V.lo, G.vg[v].str, NoStep(V, ixs))]

(* A box of elements (the slice first..last, inside the allocation).         *)
InSlice(V, tup, s, f, l) ==
    LET ix == WithStep(V, tup, s) IN \A k \in 1..Len(ix) : f[k] <= ix[k] /\ ix[k] <= l[k]
RECURSIVE SliceSteps(_, _, _, _, _, _, _)
(* same: every element gets e.val; else element ix gets FillVal(e.seed, ix). *)
SliceSteps(P, G, m, e, s, last, same) ==
    IF s > last THEN m
    ELSE LET V == P.vars[e.v]
             g == G.vg[e.v]
             old == m[e.v][Slot(V, s)]
             b == TLCEval([n \in 1..g.vol |->
                     IF InSlice(V, g.tup[n], s, e.f, e.z)
                     THEN IF same THEN e.val ELSE FillVal(e.seed, WithStep(V, g.tup[n], s))
                     ELSE old[n]])
         IN  SliceSteps(P, G, [m EXCEPT ![e.v][Slot(V, s)] = b], e, s + 1, last, same)
SliceFirst(V, e) == IF V.st THEN e.f[V.sp] ELSE 0
SliceLast(V, e)  == IF V.st THEN e.z[V.sp] ELSE 0
DoSlice(P, G, st, e) ==
    LET V == P.vars[e.v]
    IN  [st EXCEPT !.mem = SliceSteps(P, G, st.mem, e, SliceFirst(V, e), SliceLast(V, e), FALSE)]
(* Steps outside the window are ignored, as other elements out of range are. *)
DoSliceSame(P, G, st, e) ==
    LET V == P.vars[e.v]
    IN  [st EXCEPT !.mem = SliceSteps(P, G, st.mem, e,
                                      IF V.st THEN Max2(SliceFirst(V, e), st.fv[e.v]) ELSE 0,
                                      IF V.st THEN Min2(SliceLast(V, e), LastValid(P, st, e.v)) ELSE 0, TRUE)]
DoSetAll(P, G, st, e) ==
    [st EXCEPT !.mem[e.v] = [a \in DOMAIN st.mem[e.v] |-> [n \in 1..G.vg[e.v].vol |-> e.val]]]

-----------------------------------------------------------------------------
(* One step of a run.                                                        *)
(* A run makes the step it writes valid, like any write.                     *)
DoStep(P, G, ord, st, t) ==
    LET W == {P.eqs[q].v : q \in Main(P)}
    IN  [st EXCEPT !.mem = StepMem(P, G, ord, st.mem, t),
                   !.fv = [v \in 1..Len(P.vars) |-> IF v \in W THEN Include(P, st, v, t + P.dir).fv[v] ELSE st.fv[v]]]

-----------------------------------------------------------------------------
(* Observations.                                                             *)
OkWin(P, st, e) == e.fv = st.fv[e.v] /\ e.lv = LastValid(P, st, e.v)
OkDump(P, G, st, e) ==
    LET V == P.vars[e.v]
    IN  /\ Len(e.vals) = e.s1 - e.s0 + 1
        /\ \A i \in 1..Len(e.vals) : e.vals[i] = st.mem[e.v][Slot(V, e.s0 + i - 1)]
(* An access is refused exactly when a step it needs is not stored.          *)
OkRefuseElem(P, st, e) == ~StepOk(P, st, e.v, StepOf(P.vars[e.v], e.ix))
OkRefuseSlice(P, st, e) ==
    \/ ~StepOk(P, st, e.v, SliceFirst(P.vars[e.v], e))
    \/ ~StepOk(P, st, e.v, SliceLast(P.vars[e.v], e))
OkGet(P, G, st, e) == e.val = ElemAt(P, G, st, e.v, e.ix)

-----------------------------------------------------------------------------
(* Work statistics: the steps done, and the elements of output variables     *)
(* written, since they were last cleared.  An equation writes one element at *)
(* each point of the domain where its condition holds, in each step in which *)
(* its step condition holds, however the work is tiled and distributed.      *)
NoWork == [n |-> 0, w |-> 0]
Covered(P, G, q, t) ==
    LET E == P.eqs[q]
        C == [P |-> P, G |-> G, mem |-> <<>>, nw |-> <<>>, t |-> t]
        z == DomLo(P)
        on == IF E.sc.n = "none" THEN TRUE ELSE Bool(C, E.sc, z)[1]
    IN  IF ~on THEN 0
        ELSE IF E.cond.n = "none" THEN G.n
        ELSE LET b == Bool(C, E.cond, z) IN Cardinality({p \in 1..G.n : b[p]})
DoWork(P, G, wk, t) ==
    LET S == {q \in 1..Len(P.eqs) : q \in Main(P)}
        RECURSIVE Sum(_)
        Sum(q) == IF q = 0 THEN 0 ELSE (IF q \in S THEN Covered(P, G, q, t) ELSE 0) + Sum(q - 1)
    IN  [n |-> wk.n + 1, w |-> wk.w + Sum(Len(P.eqs))]
(* Elements of scratch variables are written as often as is convenient.      *)
OkStats(P, G, wk, e) ==
    /\ e.n = wk.n
    /\ e.pts = G.n
    /\ IF \E v \in 1..Len(P.vars) : P.vars[v].scr THEN e.wr >= wk.w ELSE e.wr = wk.w
=============================================================================
