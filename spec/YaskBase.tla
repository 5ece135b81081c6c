------------------------------ MODULE YaskBase ------------------------------
(* Arithmetic and tuple helpers shared by the YASK specification modules.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* Modulo with a non-negative result.                                        *)
IMod(a, b) == a % b

RECURSIVE SumSeq(_), ProdSeq(_)
SumSeq(s)  == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))

(* The value with which the harness fills the element at index tuple ix:     *)
(* identical to fillval() in kd/kdriver.cpp.                                 *)
FillP == <<3, 17, 5, 29, 11, 7>>
RECURSIVE FillLin(_, _, _)
FillLin(seed, ix, k) ==
    IF k > Len(ix) THEN seed ELSE FillP[k] * (ix[k] + 60) + FillLin(seed, ix, k + 1)
FillVal(seed, ix) ==
    LET lin == Abs(FillLin(seed, ix, 1))
    IN  ((((lin * lin) % 2017) + lin * 13) % 201) - 100

(* Row-major boxes: a box is <<lo, hi>> with tuples lo, hi.                  *)
BoxVol(lo, hi) == ProdSeq([k \in 1..Len(lo) |-> Max2(0, hi[k] - lo[k] + 1)])
RECURSIVE StrideFrom(_, _, _)
StrideFrom(lo, hi, k) ==
    IF k >= Len(lo) THEN 1 ELSE (hi[k + 1] - lo[k + 1] + 1) * StrideFrom(lo, hi, k + 1)
Strides(lo, hi) == [k \in 1..Len(lo) |-> StrideFrom(lo, hi, k)]
(* The n-th (from 1) index tuple of a box, row-major.                        *)
BoxTuple(lo, hi, str, n) ==
    [k \in 1..Len(lo) |-> lo[k] + (((n - 1) \div str[k]) % (hi[k] - lo[k] + 1))]
(* Flat index (from 1) of tuple ix in a box.                                 *)
BoxFlat(lo, str, ix) == 1 + SumSeq([k \in 1..Len(lo) |-> (ix[k] - lo[k]) * str[k]])
InBox(lo, hi, ix) == \A k \in 1..Len(lo) : lo[k] <= ix[k] /\ ix[k] <= hi[k]
=============================================================================
