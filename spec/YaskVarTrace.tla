---------------------------- MODULE YaskVarTrace ----------------------------
(* Checks recorded sequences of access calls on one variable of one rank     *)
(* against YaskVar.  TRACES names a file with one JSON case per line:        *)
(* [V, fv, g (number of an earlier or this case with the same shape), ev].   *)
EXTENDS YaskVar, Json, IOUtils, TLCExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NCases == Len(Cases)
Geos == TLCEval([c \in 1..NCases |-> IF Cases[c].g = c THEN VarGeoOf(Cases[c].V) ELSE 0])
GeoOf(c) == Geos[Cases[c].g]

VARIABLES cs, l, st
vars == <<cs, l, st>>

Init == /\ cs \in 1..NCases
        /\ l = 1
        /\ st = InitVar(Cases[cs].V, GeoOf(cs), Cases[cs].fv)
Next == /\ l <= Len(Cases[cs].ev)
        /\ st' \in VarStep(Cases[cs].V, GeoOf(cs), st, Cases[cs].ev[l])
        /\ l' = l + 1
        /\ cs' = cs
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..NCases : TLCSet(i, 0)
Progress == TLCSet(cs, Max2(l, TLCGet(cs)))
View == <<cs, l>>
Report == /\ \A i \in 1..NCases : PrintT(<<"CASE", i, TLCGet(i) - 1, Len(Cases[i].ev)>>)
          /\ \A i \in 1..NCases : TLCGet(i) - 1 = Len(Cases[i].ev)
=============================================================================
