------------------------------ MODULE YaskVar -------------------------------
(* One rank's part of one variable, as its access functions show it: an      *)
(* array over index tuples.  V describes the allocation:                     *)
(*   V.st    has a step dimension (then the first one)                       *)
(*   V.al    steps stored                                                    *)
(*   V.lo/hi first and last index of every other dimension                   *)
(*   V.wrap  all step indices are accepted and wrap around                   *)
(* The state is [fv |-> first valid step index, mem |-> values per step slot *)
(* (row-major)].                                                             *)
EXTENDS YaskBase

(* Contents nobody has defined; any value may be read there.                 *)
UNK == -2000000000
(* Codes of results that are no small integers: something else, and the      *)
(* extreme values returned when nothing was reduced.                         *)
ODD == 2000000001
LOWEST == -2000000002
HIGHEST == 2000000002

VStr(V) == TLCEval(Strides(V.lo, V.hi))
VVol(V) == BoxVol(V.lo, V.hi)
VarGeoOf(V) == LET str == VStr(V)
                   vol == VVol(V)
               IN  [str |-> str, vol |-> vol,
                    tup |-> TLCEval([n \in 1..vol |-> TLCEval(BoxTuple(V.lo, V.hi, str, n))])]

NDims(V) == Len(V.lo) + (IF V.st THEN 1 ELSE 0)
Arity(V, ix) == Len(ix) = NDims(V)
StepIx(V, ix) == IF V.st THEN ix[1] ELSE 0
RestIx(V, ix) == IF V.st THEN Tail(ix) ELSE ix
FullIx(V, tup, s) == IF V.st THEN <<s>> \o tup ELSE tup
SlotOf(V, s) == IF V.st THEN IMod(s, V.al) + 1 ELSE 1

InRest(V, ix) == InBox(V.lo, V.hi, RestIx(V, ix))
LastStep(V, st) == st.fv + V.al - 1
InStep(V, st, ix) == V.st => V.wrap \/ (st.fv <= ix[1] /\ ix[1] <= LastStep(V, st))
InVar(V, st, ix) == InRest(V, ix) /\ InStep(V, st, ix)

InitVar(V, G, fv) ==
    [fv |-> fv,
     mem |-> [a \in 1..(IF V.st THEN V.al ELSE 1) |-> TLCEval([n \in 1..G.vol |-> UNK])]]

Flat(V, G, ix) == BoxFlat(V.lo, G.str, RestIx(V, ix))
At(V, G, st, ix) == st.mem[SlotOf(V, StepIx(V, ix))][Flat(V, G, ix)]
Plus(a, b) == IF a = UNK THEN UNK ELSE a + b
Same(got, want) == want = UNK \/ got = want

(* Writing a step makes it valid: the window moves just far enough.          *)
Moved(V, st, s) ==
    IF ~V.st \/ V.wrap \/ (st.fv <= s /\ s <= LastStep(V, st)) THEN st.fv
    ELSE IF s < st.fv THEN s ELSE s - V.al + 1

-----------------------------------------------------------------------------
(* Single elements.  Each operator relates the call e, with the result it    *)
(* reported, to the states before and after: the set of possible next states *)
(* is empty if the result was not allowed.                                   *)
Refuse(e, st) == IF e.exc THEN {st} ELSE {}
Return(e, ok, st) == IF ~e.exc /\ ok THEN {st} ELSE {}

DoLocal(V, G, st, e) ==
    IF ~Arity(V, e.ix) THEN Refuse(e, st)
    ELSE Return(e, ~e.exc /\ (e.r = 1) = InVar(V, st, e.ix), st)

DoGet(V, G, st, e) ==
    IF Arity(V, e.ix) /\ InVar(V, st, e.ix)
    THEN Return(e, ~e.exc /\ Same(e.val, At(V, G, st, e.ix)), st)
    ELSE Refuse(e, st)

DoSet(V, G, st, e) ==
    IF ~Arity(V, e.ix) THEN Refuse(e, st)
    ELSE IF InRest(V, e.ix)
    THEN Return(e, ~e.exc /\ e.n = 1,
                [fv  |-> Moved(V, st, StepIx(V, e.ix)),
                 mem |-> [st.mem EXCEPT ![SlotOf(V, StepIx(V, e.ix))][Flat(V, G, e.ix)] = e.v]])
    ELSE IF e.strict THEN Refuse(e, st)
    ELSE Return(e, ~e.exc /\ e.n = 0, st)

DoAdd(V, G, st, e) ==
    IF ~Arity(V, e.ix) THEN Refuse(e, st)
    ELSE IF InVar(V, st, e.ix)
    THEN Return(e, ~e.exc /\ e.n = 1,
                [st EXCEPT !.mem = [@ EXCEPT ![SlotOf(V, StepIx(V, e.ix))] =
                                       [@ EXCEPT ![Flat(V, G, e.ix)] = Plus(@, e.v)]]])
    ELSE IF e.strict THEN Refuse(e, st)
    ELSE Return(e, ~e.exc /\ e.n = 0, st)

-----------------------------------------------------------------------------
(* Slices: all elements f..z.                                                *)
(* The part of f..z that is stored, as [s0, s1, lo, hi].                     *)
Clip(V, st, f, z) ==
    [s0 |-> IF ~V.st THEN 0 ELSE IF V.wrap THEN f[1] ELSE Max2(f[1], st.fv),
     s1 |-> IF ~V.st THEN 0 ELSE IF V.wrap THEN z[1] ELSE Min2(z[1], LastStep(V, st)),
     lo |-> [k \in 1..Len(V.lo) |-> Max2(V.lo[k], RestIx(V, f)[k])],
     hi |-> [k \in 1..Len(V.lo) |-> Min2(V.hi[k], RestIx(V, z)[k])]]
Steps(c) == Max2(0, c.s1 - c.s0 + 1)
PerStep(c) == BoxVol(c.lo, c.hi)
Count(c) == Steps(c) * PerStep(c)
(* The flat indices of the box, in row-major order.                          *)
Flats(V, G, c) ==
    LET str == TLCEval(Strides(c.lo, c.hi))
    IN  TLCEval([i \in 1..PerStep(c) |-> BoxFlat(V.lo, G.str, BoxTuple(c.lo, c.hi, str, i))])

InBoth(V, st, e) == InVar(V, st, e.f) /\ InVar(V, st, e.z)
ArityBoth(V, e) == Arity(V, e.f) /\ Arity(V, e.z)

(* The values of a slice, in row-major order, steps outermost.               *)
SliceVals(V, G, st, c) ==
    LET fl == Flats(V, G, c)
        n  == PerStep(c)
    IN  TLCEval([i \in 1..Count(c) |->
          st.mem[SlotOf(V, c.s0 + (i - 1) \div n)][fl[((i - 1) % n) + 1]]])

RECURSIVE WriteSteps(_, _, _, _, _, _, _)
WriteSteps(V, G, mem, c, fs, s, e) ==
    IF s > c.s1 THEN mem
    ELSE LET old == mem[SlotOf(V, s)]
             new == TLCEval([n \in 1..G.vol |->
                      IF n \in fs THEN (IF e.same THEN e.v ELSE FillVal(e.seed, FullIx(V, G.tup[n], s)))
                      ELSE old[n]])
         IN  WriteSteps(V, G, [mem EXCEPT ![SlotOf(V, s)] = new], c, fs, s + 1, e)
Written(V, G, st, c, e) ==
    IF Count(c) = 0 THEN st
    ELSE LET fl == Flats(V, G, c)
         IN  [st EXCEPT !.mem = WriteSteps(V, G, st.mem, c, TLCEval({fl[i] : i \in 1..PerStep(c)}), c.s0, e)]

DoGetSlice(V, G, st, e) ==
    IF ~ArityBoth(V, e) \/ ~InBoth(V, st, e) THEN Refuse(e, st)
    ELSE LET c == Clip(V, st, e.f, e.z)
         IN  IF e.len < Count(c) THEN Refuse(e, st)
             ELSE Return(e, /\ ~e.exc
                            /\ e.n = Count(c)
                            /\ e.over = 0
                            /\ LET w == SliceVals(V, G, st, c)
                               IN  \A i \in 1..Count(c) : Same(e.vals[i], w[i]), st)

DoSetSlice(V, G, st, e) ==
    IF ~ArityBoth(V, e) \/ ~InBoth(V, st, e) THEN Refuse(e, st)
    ELSE LET c == Clip(V, st, e.f, e.z)
         IN  IF e.len < Count(c) THEN Refuse(e, st)
             ELSE Return(e, ~e.exc /\ e.n = Count(c), Written(V, G, st, c, e))

DoSliceSame(V, G, st, e) ==
    IF ~ArityBoth(V, e) \/ (e.strict /\ ~InBoth(V, st, e)) THEN Refuse(e, st)
    ELSE LET c == Clip(V, st, e.f, e.z)
         IN  Return(e, ~e.exc /\ e.n = Count(c), Written(V, G, st, c, e))

DoSetAll(V, G, st, e) ==
    Return(e, TRUE, [st EXCEPT !.mem = [a \in DOMAIN st.mem |-> TLCEval([n \in 1..G.vol |-> e.v])]])

DoWindow(V, G, st, e) == Return(e, ~e.exc /\ e.fv = st.fv /\ e.lv = LastStep(V, st), st)

-----------------------------------------------------------------------------
(* Reductions.  The mask is a set of bits; a value that was not requested is *)
(* refused (code "exc", here ODD + 8).                                       *)
EXC == 2000000009
Bit(m, b) == (m \div b) % 2 = 1
RECURSIVE SumTo(_, _), SqTo(_, _), MaxTo(_, _), MinTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
SqTo(s, k) == IF k = 0 THEN 0 ELSE s[k] * s[k] + SqTo(s, k - 1)
(* Products beyond what TLC can hold are UNK (not compared), unless a factor *)
(* is zero and no order of multiplication overflows.                         *)
RECURSIVE Bits(_), BitsTo(_, _), ProdNZ(_, _)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
BitsTo(s, k) == IF k = 0 THEN 0 ELSE Bits(Abs(s[k])) + BitsTo(s, k - 1)
ProdNZ(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdNZ(s, k - 1)
ProdTo(s, k) == IF BitsTo(s, k) > 1000 THEN UNK
                ELSE IF \E i \in 1..k : s[i] = 0 THEN 0
                ELSE IF BitsTo(s, k) > 29 THEN UNK
                ELSE ProdNZ(s, k)
MaxTo(s, k) == IF k = 0 THEN LOWEST ELSE Max2(s[k], MaxTo(s, k - 1))
MinTo(s, k) == IF k = 0 THEN HIGHEST ELSE Min2(s[k], MinTo(s, k - 1))
Reduced(m, b, got, want) == IF Bit(m, b) THEN got # EXC /\ Same(got, want) ELSE got = EXC

DoReduce(V, G, st, e) ==
    IF ~ArityBoth(V, e) \/ (e.strict /\ ~InBoth(V, st, e)) THEN Refuse(e, st)
    ELSE LET c == Clip(V, st, e.f, e.z)
             w == SliceVals(V, G, st, c)
             n == Count(c)
             ok == \A i \in 1..n : w[i] # UNK
         IN  Return(e, /\ ~e.exc
                       /\ e.n = n
                       /\ e.mask = e.m
                       /\ ok => /\ Reduced(e.m, 1, e.sum, SumTo(w, n))
                                /\ Reduced(e.m, 2, e.sumsq, SqTo(w, n))
                                /\ Reduced(e.m, 4, e.prod, ProdTo(w, n))
                                /\ Reduced(e.m, 8, e.max, MaxTo(w, n))
                                /\ Reduced(e.m, 16, e.min, MinTo(w, n)), st)

-----------------------------------------------------------------------------
VarStep(V, G, st, e) ==
    CASE e.op = "local"  -> DoLocal(V, G, st, e)
      [] e.op = "get"    -> DoGet(V, G, st, e)
      [] e.op = "set"    -> DoSet(V, G, st, e)
      [] e.op = "add"    -> DoAdd(V, G, st, e)
      [] e.op = "getsl"  -> DoGetSlice(V, G, st, e)
      [] e.op = "setsl"  -> DoSetSlice(V, G, st, e)
      [] e.op = "slsame" -> DoSliceSame(V, G, st, e)
      [] e.op = "setall" -> DoSetAll(V, G, st, e)
      [] e.op = "win"    -> DoWindow(V, G, st, e)
      [] e.op = "red"    -> DoReduce(V, G, st, e)
      [] OTHER           -> {}
=============================================================================
