---------------------------- MODULE YaskFDTrace -----------------------------
(* Checks recorded calls against YaskFD. Each case: [ev], events             *)
(*   [f, m, r, e, x, exc, k1, k2, near]: form f ("C", "F", "B", "A"), order  *)
(*   m, radius or accuracy r, or evaluation point e and sample points x;     *)
(*   exc: refused; the results times the product of distances, rounded to    *)
(*   integers, modulo P1 and P2, and whether rounding changed no more than   *)
(*   floating-point error does.                                              *)
EXTENDS YaskFD, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NCases == Len(Cases)
Max2(a, b) == IF a > b THEN a ELSE b
P1 == 30011
P2 == 32003
VARIABLES cs, l
vars == <<cs, l>>

Good(c) ==
    LET x == CASE c.f = "C" -> Center(c.r) [] c.f = "F" -> Forward(c.r) [] c.f = "B" -> Backward(c.r) [] OTHER -> c.x
        e == IF c.f = "A" THEN c.e ELSE 0
    IN  IF ~Legal(c.f, c.m, c.r, Len(c.x)) THEN c.exc = 1
        ELSE /\ c.exc = 0
             /\ Len(c.k1) = Len(x) /\ Len(c.k2) = Len(x)
             /\ \A i \in 1..Len(x) : /\ c.near[i] = 1
                                     /\ c.k1[i] = Num(x, e, c.m, i, P1)
                                     /\ c.k2[i] = Num(x, e, c.m, i, P2)
Init == cs \in 1..NCases /\ l = 1
Next == /\ l <= Len(Cases[cs].ev)
        /\ Good(Cases[cs].ev[l])
        /\ l' = l + 1
        /\ cs' = cs
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..NCases : TLCSet(i, 0)
Progress == TLCSet(cs, Max2(l, TLCGet(cs)))
Report == /\ \A i \in 1..NCases : PrintT(<<"CASE", i, TLCGet(i) - 1, Len(Cases[i].ev)>>)
          /\ \A i \in 1..NCases : TLCGet(i) - 1 = Len(Cases[i].ev)
=============================================================================
