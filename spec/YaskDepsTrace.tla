--------------------------- MODULE YaskDepsTrace ----------------------------
(* Checks verdicts of the YASK compiler against YaskDeps.  Each case: [P, ev]*)
(* with the one event [op: "ok" or "refused"].                               *)
EXTENDS YaskDeps, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NCases == Len(Cases)
Max2(a, b) == IF a > b THEN a ELSE b

VARIABLES cs, l
vars == <<cs, l>>
Ev == Cases[cs].ev[l]
Init == cs \in 1..NCases /\ l = 1
Accept == Ev.op = "ok" /\ Legal(Cases[cs].P)
Refuse == Ev.op = "refused" /\ ~Legal(Cases[cs].P)
Next == /\ l <= Len(Cases[cs].ev)
        /\ Accept \/ Refuse
        /\ l' = l + 1 /\ cs' = cs
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..NCases : TLCSet(i, 0)
Progress == TLCSet(cs, Max2(l, TLCGet(cs)))
Report == /\ \A i \in 1..NCases : PrintT(<<"CASE", i, TLCGet(i) - 1, Len(Cases[i].ev)>>)
          /\ \A i \in 1..NCases : TLCGet(i) - 1 = Len(Cases[i].ev)
=============================================================================
