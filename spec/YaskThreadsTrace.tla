--------------------------- MODULE YaskThreadsTrace --------------------------
(* Phases recorded from the real kernel, and concurrent additions.           *)
EXTENDS YaskThreads, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NCases == Len(Cases)
VARIABLES cs, l
vars == <<cs, l>>
Range(s) == {s[i] : i \in DOMAIN s}
OK(e) == IF e.op = "phase" THEN PhaseOK({<<Range(e.cells[i].r), Range(e.cells[i].w)>> : i \in DOMAIN e.cells})
         ELSE AddsOK(e)
Init == cs \in 1..NCases /\ l = 1
Next == /\ l <= Len(Cases[cs].ev)
        /\ OK(Cases[cs].ev[l])
        /\ l' = l + 1
        /\ cs' = cs
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..NCases : TLCSet(i, 0)
Progress == TLCSet(cs, IF l > TLCGet(cs) THEN l ELSE TLCGet(cs))
Report == /\ \A i \in 1..NCases : PrintT(<<"CASE", i, TLCGet(i) - 1, Len(Cases[i].ev)>>)
          /\ \A i \in 1..NCases : TLCGet(i) - 1 = Len(Cases[i].ev)
=============================================================================
