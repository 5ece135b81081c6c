------------------------------ MODULE YaskDSL -------------------------------
(* The meaning of a YASK stencil program, for any program.                   *)
(*                                                                           *)
(* A program is data: variables with their dimensions, and equations whose   *)
(* left side, right side and conditions are expression trees.  This module   *)
(* defines what one step of such a program does to the variables' memory:    *)
(* in dependency order, every equation is evaluated at every point of the    *)
(* global domain where its conditions hold.  Nothing here knows about        *)
(* vectors, blocks, tiles, threads, ranks or messages: those are the         *)
(* implementation's business, and must not be observable.                    *)
(*                                                                           *)
(* Program P:                                                                *)
(*   P.dsz[i]      size of global domain dimension i                         *)
(*   P.dir         step direction, 1 or -1                                   *)
(*   P.vars[v]     [nm, scr, st (has step dim), sp (position of the step     *)
(*                  dim among the var's dims, from 1; 0 if none),            *)
(*                  al (step allocation),                                    *)
(*                  dd (for each non-step dim: domain dim number, or 0 if    *)
(*                  misc), lo, hi (bounds per non-step dim, halos included)] *)
(*   P.eqs[e]      [v, ms (misc indices of the LHS), rhs, cond, sc]          *)
(*                                                                           *)
(* Memory: mem[v][slot] is the row-major sequence of the values of v in      *)
(* lo..hi; step index s lives in slot s mod al.                              *)
EXTENDS YaskBase

-----------------------------------------------------------------------------
(* Geometry of a program's variables, computed once per program.             *)
NDom(P) == ProdSeq(P.dsz)
DomLo(P) == [i \in 1..Len(P.dsz) |-> 0]
DomHi(P) == [i \in 1..Len(P.dsz) |-> P.dsz[i] - 1]

Coords(P) ==
    LET str == Strides(DomLo(P), DomHi(P))
    IN  TLCEval([p \in 1..NDom(P) |-> TLCEval(BoxTuple(DomLo(P), DomHi(P), str, p))])

VarGeo(P, co, v) ==
    LET V   == P.vars[v]
        str == TLCEval(Strides(V.lo, V.hi))
        nk  == Len(V.dd)
        (* element of v at domain point p, misc dims at their first index    *)
        base == TLCEval([p \in 1..NDom(P) |->
                   1 + SumSeq([k \in 1..nk |->
                         IF V.dd[k] = 0 THEN 0 ELSE (co[p][V.dd[k]] - V.lo[k]) * str[k]])])
        vol == BoxVol(V.lo, V.hi)
        dstr == Strides(DomLo(P), DomHi(P))
        tup == TLCEval([n \in 1..vol |-> TLCEval(BoxTuple(V.lo, V.hi, str, n))])
        (* domain point of element n, or 0 outside the global domain         *)
        inv == TLCEval([n \in 1..vol |->
                  IF \A k \in 1..nk : V.dd[k] = 0 \/ (tup[n][k] >= 0 /\ tup[n][k] < P.dsz[V.dd[k]])
                  THEN 1 + SumSeq([k \in 1..nk |-> IF V.dd[k] = 0 THEN 0 ELSE tup[n][k] * dstr[V.dd[k]]])
                  ELSE 0])
        msc == TLCEval([n \in 1..vol |-> SelectSeq([k \in 1..nk |-> IF V.dd[k] = 0 THEN tup[n][k] ELSE -9999],
                                                   LAMBDA x : x # -9999)])
    IN  [str |-> str, base |-> base, inv |-> inv, msc |-> msc, vol |-> vol, tup |-> tup]

Geo(P) ==
    LET co == Coords(P)
    IN  [n |-> NDom(P), co |-> co, vg |-> TLCEval([v \in 1..Len(P.vars) |-> VarGeo(P, co, v)])]

Slot(V, s) == IF V.st THEN IMod(s, V.al) + 1 ELSE 1

-----------------------------------------------------------------------------
(* Expressions.  C is the evaluation context:                                *)
(*   [P, G, mem (values before this step), nw (values of the step being      *)
(*    computed, so far), t (current step index)]                             *)
(* off shifts the point of evaluation (used to inline scratch variables).    *)
(* The result is the sequence of values at all domain points.                *)
RECURSIVE Num(_, _, _), Bool(_, _, _), ScratchVal(_, _, _, _)

Const(C, k) == [p \in 1..C.G.n |-> k]

(* Read of a non-scratch variable: e.o is the offset from the step index     *)
(* (0 if no step dim), e.a[k] offset or misc index for non-step dim k.       *)
ReadVar(C, e, off) ==
    LET V   == C.P.vars[e.v]
        g   == C.G.vg[e.v]
        src == IF V.st /\ e.o = C.P.dir THEN C.nw[e.v] ELSE C.mem[e.v][Slot(V, C.t + e.o)]
        dlt == SumSeq([k \in 1..Len(V.dd) |->
                  IF V.dd[k] = 0 THEN (e.a[k] - V.lo[k]) * g.str[k]
                  ELSE (e.a[k] + off[V.dd[k]]) * g.str[k]])
    IN  TLCEval([p \in 1..C.G.n |-> src[g.base[p] + dlt]])

(* A scratch variable read at an offset: the equation that defines it,       *)
(* evaluated there.  If several equations (with disjoint conditions) define  *)
(* it, the one whose condition holds at the point.                           *)
ShiftBy(C, e, off) ==
    LET V == C.P.vars[e.v]
    IN  [d \in 1..Len(off) |->
          off[d] + SumSeq([k \in 1..Len(V.dd) |-> IF V.dd[k] = d THEN e.a[k] ELSE 0])]
ScratchMisc(C, e) ==
    LET V == C.P.vars[e.v]
    IN  SelectSeq([k \in 1..Len(V.dd) |-> IF V.dd[k] = 0 THEN e.a[k] ELSE -9999], LAMBDA x : x # -9999)
ScratchVal(C, v, ms, off) ==
    LET E == {q \in 1..Len(C.P.eqs) : C.P.eqs[q].v = v /\ C.P.eqs[q].ms = ms}
        val == TLCEval([q \in E |-> Num(C, C.P.eqs[q].rhs, off)])
        cnd == TLCEval([q \in E |-> IF C.P.eqs[q].cond.n = "none" THEN [p \in 1..C.G.n |-> TRUE]
                                    ELSE Bool(C, C.P.eqs[q].cond, off)])
    IN  TLCEval([p \in 1..C.G.n |->
          LET live == {q \in E : cnd[q][p]}
          IN  IF live = {} THEN 0 ELSE val[CHOOSE q \in live : TRUE][p]])

(* Truncating division and its remainder, as C computes them on integers.    *)
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
TRem(a, b) == a - b * TDiv(a, b)

RECURSIVE SumOver(_, _, _, _), MulOver(_, _, _, _)
SumOver(C, k, i, off) ==
    IF i = Len(k) THEN Num(C, k[i], off)
    ELSE LET a == Num(C, k[i], off)  b == SumOver(C, k, i + 1, off)
         IN  TLCEval([p \in 1..C.G.n |-> a[p] + b[p]])
MulOver(C, k, i, off) ==
    IF i = Len(k) THEN Num(C, k[i], off)
    ELSE LET a == Num(C, k[i], off)  b == MulOver(C, k, i + 1, off)
         IN  TLCEval([p \in 1..C.G.n |-> a[p] * b[p]])

Num(C, e, off) ==
    CASE e.n = "c" -> Const(C, e.x)
      [] e.n = "v" -> IF C.P.vars[e.v].scr
                      THEN ScratchVal(C, e.v, ScratchMisc(C, e), ShiftBy(C, e, off))
                      ELSE ReadVar(C, e, off)
      [] e.n = "+" -> SumOver(C, e.k, 1, off)
      [] e.n = "*" -> MulOver(C, e.k, 1, off)
      [] e.n = "-" -> LET a == Num(C, e.k[1], off)  b == Num(C, e.k[2], off)
                      IN  TLCEval([p \in 1..C.G.n |-> a[p] - b[p]])
      [] e.n = "/" -> LET a == Num(C, e.k[1], off)  b == Num(C, e.k[2], off)
                      IN  TLCEval([p \in 1..C.G.n |-> TDiv(a[p], b[p])])
      [] e.n = "fdiv" -> Num(C, e.k[1], off)   \* (a / b) * b: values are reals, so no remainder is lost
      [] e.n = "%" -> LET a == Num(C, e.k[1], off)  b == Num(C, e.k[2], off)
                      IN  TLCEval([p \in 1..C.G.n |-> TRem(a[p], b[p])])
      [] e.n = "neg" -> LET a == Num(C, e.k[1], off) IN TLCEval([p \in 1..C.G.n |-> -a[p]])
      [] e.n = "abs" -> LET a == Num(C, e.k[1], off) IN TLCEval([p \in 1..C.G.n |-> Abs(a[p])])
      [] e.n = "min" -> LET a == Num(C, e.k[1], off)  b == Num(C, e.k[2], off)
                        IN  TLCEval([p \in 1..C.G.n |-> Min2(a[p], b[p])])
      [] e.n = "max" -> LET a == Num(C, e.k[1], off)  b == Num(C, e.k[2], off)
                        IN  TLCEval([p \in 1..C.G.n |-> Max2(a[p], b[p])])
      \* Functions, where their values are integers: a to the power of 2, and
      \* the others at the point 0 (the logarithm at 1).
      [] e.n = "pow2" -> LET a == Num(C, e.k[1], off) IN TLCEval([p \in 1..C.G.n |-> a[p] * a[p]])
      [] e.n \in {"sqrt0", "sin0", "log1", "atan0", "erf0", "cbrt0"} -> Const(C, 0)
      [] e.n \in {"cos0", "exp0"} -> Const(C, 1)
      [] e.n = "i" -> TLCEval([p \in 1..C.G.n |-> C.G.co[p][e.d] + off[e.d]])
      [] e.n = "first" -> Const(C, 0)
      [] e.n = "last" -> Const(C, C.P.dsz[e.d] - 1)
      [] e.n = "t" -> Const(C, C.t)

Bool(C, e, off) ==
    CASE e.n = "and" -> LET a == Bool(C, e.k[1], off)  b == Bool(C, e.k[2], off)
                        IN  TLCEval([p \in 1..C.G.n |-> a[p] /\ b[p]])
      [] e.n = "or"  -> LET a == Bool(C, e.k[1], off)  b == Bool(C, e.k[2], off)
                        IN  TLCEval([p \in 1..C.G.n |-> a[p] \/ b[p]])
      [] e.n = "not" -> LET a == Bool(C, e.k[1], off) IN TLCEval([p \in 1..C.G.n |-> ~a[p]])
      [] OTHER ->
           LET a == Num(C, e.k[1], off)  b == Num(C, e.k[2], off)
           IN  TLCEval([p \in 1..C.G.n |->
                 CASE e.n = "==" -> a[p] = b[p]
                   [] e.n = "!=" -> a[p] # b[p]
                   [] e.n = "<"  -> a[p] < b[p]
                   [] e.n = ">"  -> a[p] > b[p]
                   [] e.n = "<=" -> a[p] <= b[p]
                   [] e.n = ">=" -> a[p] >= b[p]])

-----------------------------------------------------------------------------
(* Dependencies: what an expression reads of the step being computed, as a   *)
(* set of <<v, misc>> slices; scratch variables are looked through.          *)
RECURSIVE NewReads(_, _)
NewReads(P, e) ==
    IF e.n = "v"
    THEN LET V == P.vars[e.v]
             ms == SelectSeq([k \in 1..Len(V.dd) |-> IF V.dd[k] = 0 THEN e.a[k] ELSE -9999], LAMBDA x : x # -9999)
         IN  IF V.scr
             THEN UNION {NewReads(P, P.eqs[q].rhs) : q \in {q \in 1..Len(P.eqs) : P.eqs[q].v = e.v /\ P.eqs[q].ms = ms}}
             ELSE IF V.st /\ e.o = P.dir THEN {<<e.v, ms>>} ELSE {}
    ELSE IF "k" \in DOMAIN e THEN UNION {NewReads(P, e.k[i]) : i \in 1..Len(e.k)}
    ELSE {}

Main(P) == {q \in 1..Len(P.eqs) : ~P.vars[P.eqs[q].v].scr}

(* An order in which every slice of the new step is complete before it is    *)
(* read; <<>> if there is none (a cyclic, hence illegal, program).           *)
RECURSIVE OrderFrom(_, _, _)
OrderFrom(P, reads, left) ==
    IF left = {} THEN <<>>
    ELSE LET ready == {q \in left : \A r \in left : <<P.eqs[r].v, P.eqs[r].ms>> \notin reads[q]}
         IN  IF ready = {} THEN <<0>>
             ELSE LET q == CHOOSE q \in ready : \A r \in ready : q <= r
                  IN  <<q>> \o OrderFrom(P, reads, left \ {q})
Order(P) ==
    LET reads == TLCEval([q \in Main(P) |-> NewReads(P, P.eqs[q].rhs)])
    IN  OrderFrom(P, reads, Main(P))

-----------------------------------------------------------------------------
(* Storage: every element an equation reads must exist.  Reach is how far    *)
(* beyond the point of evaluation, per domain dim, an expression reads a     *)
(* variable: the set of <<v, step offset, offsets per non-step dim>>.        *)
RECURSIVE Reads(_, _, _)
Reads(P, e, off) ==
    IF e.n = "v"
    THEN LET V == P.vars[e.v]
             ms == SelectSeq([k \in 1..Len(V.dd) |-> IF V.dd[k] = 0 THEN e.a[k] ELSE -9999], LAMBDA x : x # -9999)
         IN  IF V.scr
             THEN LET o2 == [d \in 1..Len(off) |->
                              off[d] + SumSeq([k \in 1..Len(V.dd) |-> IF V.dd[k] = d THEN e.a[k] ELSE 0])]
                  IN UNION {Reads(P, P.eqs[q].rhs, o2) : q \in {q \in 1..Len(P.eqs) : P.eqs[q].v = e.v /\ P.eqs[q].ms = ms}}
             ELSE {<<e.v, e.o, [k \in 1..Len(V.dd) |-> IF V.dd[k] = 0 THEN e.a[k] ELSE e.a[k] + off[V.dd[k]]]>>}
    ELSE IF "k" \in DOMAIN e THEN UNION {Reads(P, e.k[i], off) : i \in 1..Len(e.k)}
    ELSE {}
StorageSuffices(P) ==
    /\ \A q \in Main(P) :
        /\ \A r \in Reads(P, P.eqs[q].rhs, DomLo(P)) :
            LET V == P.vars[r[1]]
            IN  /\ V.st => \/ r[2] = P.dir
                           \/ r[2] * P.dir <= 0 /\ Abs(r[2]) <= V.al - 1
                           \/ r[1] \notin {P.eqs[z].v : z \in Main(P)}
                /\ \A k \in 1..Len(V.dd) :
                     IF V.dd[k] = 0 THEN V.lo[k] <= r[3][k] /\ r[3][k] <= V.hi[k]
                     ELSE V.lo[k] <= r[3][k] /\ r[3][k] <= V.hi[k] - P.dsz[V.dd[k]] + 1
        /\ LET V == P.vars[P.eqs[q].v]
           IN  InBox(V.lo, V.hi, [k \in 1..Len(V.dd) |->
                 IF V.dd[k] # 0 THEN 0
                 ELSE P.eqs[q].ms[Cardinality({j \in 1..k : V.dd[j] = 0})]])

-----------------------------------------------------------------------------
(* One step.                                                                 *)
(* Values that equation q gives to the slice it writes, in nw.               *)
ApplyEq(C, q) ==
    LET E   == C.P.eqs[q]
        g   == C.G.vg[E.v]
        z   == DomLo(C.P)
        on  == IF E.sc.n = "none" THEN TRUE
               ELSE Bool(C, E.sc, z)[1]
        val == Num(C, E.rhs, z)
        msk == IF E.cond.n = "none" THEN [p \in 1..C.G.n |-> TRUE] ELSE Bool(C, E.cond, z)
        old == C.nw[E.v]
    IN  IF ~on THEN old
        ELSE TLCEval([n \in 1..g.vol |->
               LET p == g.inv[n]
               IN  IF p # 0 /\ g.msc[n] = E.ms THEN (IF msk[p] THEN val[p] ELSE old[n]) ELSE old[n]])

RECURSIVE ApplyAll(_, _, _)
ApplyAll(C, ord, i) ==
    IF i > Len(ord) THEN C.nw
    ELSE LET v == C.P.eqs[ord[i]].v
             r == ApplyEq(C, ord[i])
         IN  ApplyAll([C EXCEPT !.nw = [C.nw EXCEPT ![v] = r]], ord, i + 1)

(* Memory after evaluating step t (writing step index t + dir).              *)
StepMem(P, G, ord, mem, t) ==
    LET W   == {P.eqs[q].v : q \in Main(P)}
        nw0 == [v \in 1..Len(P.vars) |->
                  IF v \in W THEN mem[v][Slot(P.vars[v], t + P.dir)] ELSE <<>>]
        nw  == ApplyAll([P |-> P, G |-> G, mem |-> mem, nw |-> nw0, t |-> t], ord, 1)
    IN  [v \in 1..Len(P.vars) |->
           IF v \in W THEN TLCEval([mem[v] EXCEPT ![Slot(P.vars[v], t + P.dir)] = nw[v]])
           ELSE mem[v]]
=============================================================================
