---------------------------- MODULE YaskTunerTrace ---------------------------
(* Checks the recorded history of the tuner of each rank against YaskTuner.  *)
EXTENDS YaskTuner, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NCases == Len(Cases)
VARIABLES cs, l, q
vars == <<cs, l, q>>
Init == cs \in 1..NCases /\ l = 1 /\ q = InitTuner
Next == /\ l <= Len(Cases[cs].ev)
        /\ q' \in Do(Cases[cs].P, q, Cases[cs].ev[l])
        /\ l' = l + 1
        /\ cs' = cs
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..NCases : TLCSet(i, 0)
Progress == TLCSet(cs, Max2(l, TLCGet(cs)))
Report == /\ \A i \in 1..NCases : PrintT(<<"CASE", i, TLCGet(i) - 1, Len(Cases[i].ev)>>)
          /\ \A i \in 1..NCases : TLCGet(i) - 1 = Len(Cases[i].ev)
=============================================================================
