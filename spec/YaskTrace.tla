----------------------------- MODULE YaskTrace ------------------------------
(* Checks traces recorded from the implementation against YaskSoln.          *)
(* The file named by the environment variable TRACES holds one JSON case per *)
(* line: a program, and the merged history of one run of the real kernel.    *)
(* A trace is accepted if every logged event is a step the specification     *)
(* allows from the state reached so far, with exactly the logged results.    *)
EXTENDS YaskSoln, Json, IOUtils, TLCExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NCases == Len(Cases)
Prog(c) == Cases[c].P
(* The implementation's storage must be able to hold what the program reads. *)
GeoOk == TLCEval([c \in 1..NCases |-> StorageSuffices(Prog(c))])
Geos == TLCEval([c \in 1..NCases |-> IF Cases[c].g = c /\ GeoOk[c] THEN Geo(Prog(c)) ELSE 0])
GeoOf(c) == Geos[Cases[c].g]       \* cases with the same variables share one
HasStats == TLCEval([c \in 1..NCases |-> \E i \in 1..Len(Cases[c].ev) : Cases[c].ev[i].op = "stats"])
Ords == TLCEval([c \in 1..NCases |-> Order(Prog(c))])

VARIABLES cs,   \* the case
          l,    \* next event
          t,    \* within a run: the next step index to compute
          st,   \* the specification's state
          wk    \* the work done since the statistics were cleared
vars == <<cs, l, t, st, wk>>

Ev == Cases[cs].ev[l]
IsEvent(op) == l <= Len(Cases[cs].ev) /\ Ev.op = op
Advance == l' = l + 1 /\ cs' = cs
Idle == t' = 0 /\ t = 0

Init == /\ cs \in {i \in 1..NCases : GeoOk[i]}
        /\ l = 1 /\ t = 0
        /\ st = InitSt(Prog(cs), GeoOf(cs))
        /\ wk = NoWork

(* A run from step index a to b evaluates a, a+dir, ..., b.                  *)
RunStep ==
    /\ IsEvent("run")
    /\ \A i \in 1..Len(Ords[cs]) : Ords[cs][i] # 0     \* the program is legal
    /\ LET d == Prog(cs).dir
           k == Abs(Ev.b - Ev.a) + 1
           s == Ev.a + t * d
       IN  /\ t < k
           /\ st' = DoStep(Prog(cs), GeoOf(cs), Ords[cs], st, s)
           /\ wk' = IF HasStats[cs] THEN DoWork(Prog(cs), GeoOf(cs), wk, s) ELSE wk
           /\ IF t + 1 = k THEN t' = 0 /\ Advance ELSE t' = t + 1 /\ l' = l /\ cs' = cs
Fill  == IsEvent("fill")  /\ Idle /\ Advance /\ st' = DoFill(Prog(cs), GeoOf(cs), st, Ev)
Set   == IsEvent("set")   /\ Idle /\ Advance /\ st' = DoSet(Prog(cs), GeoOf(cs), st, Ev)
Add   == IsEvent("add")   /\ ~OkRefuseElem(Prog(cs), st, Ev) /\ Idle /\ Advance /\ st' = DoAdd(Prog(cs), GeoOf(cs), st, Ev)
SetSl == IsEvent("setsl") /\ ~OkRefuseSlice(Prog(cs), st, Ev) /\ Idle /\ Advance /\ st' = DoSlice(Prog(cs), GeoOf(cs), st, Ev)
SlSame == IsEvent("slsame") /\ Idle /\ Advance /\ st' = DoSliceSame(Prog(cs), GeoOf(cs), st, Ev)
SetAll == IsEvent("setall") /\ Idle /\ Advance /\ st' = DoSetAll(Prog(cs), GeoOf(cs), st, Ev)
Win   == IsEvent("win")   /\ Idle /\ Advance /\ OkWin(Prog(cs), st, Ev) /\ UNCHANGED st
Dump  == IsEvent("dump")  /\ Idle /\ Advance /\ OkDump(Prog(cs), GeoOf(cs), st, Ev) /\ UNCHANGED st
Get   == IsEvent("get")   /\ ~OkRefuseElem(Prog(cs), st, Ev) /\ Idle /\ Advance /\ OkGet(Prog(cs), GeoOf(cs), st, Ev) /\ UNCHANGED st
(* Refused calls ("x" events) change nothing.                                *)
Refused == \/ (IsEvent("xget") \/ IsEvent("xadd")) /\ Idle /\ Advance /\ OkRefuseElem(Prog(cs), st, Ev) /\ UNCHANGED st
           \/ IsEvent("xsetsl") /\ Idle /\ Advance /\ OkRefuseSlice(Prog(cs), st, Ev) /\ UNCHANGED st

(* Reporting the statistics clears them.                                     *)
Stats == IsEvent("stats") /\ Idle /\ Advance /\ OkStats(Prog(cs), GeoOf(cs), wk, Ev) /\ wk' = NoWork /\ UNCHANGED st
ClrStats == IsEvent("clrstats") /\ Idle /\ Advance /\ wk' = NoWork /\ UNCHANGED st

(* After off-line tuning neither values nor valid steps are defined; the     *)
(* history then makes chosen steps valid again (and refills the variable).   *)
ReWin == IsEvent("rewin") /\ Idle /\ Advance /\ st' = [st EXCEPT !.fv[Ev.v] = Ev.s]

Next == \/ RunStep \/ Stats \/ ClrStats
        \/ /\ Refused \/ Fill \/ Set \/ Add \/ SetSl \/ SlSame \/ SetAll \/ Win \/ Dump \/ Get \/ ReWin
           /\ UNCHANGED wk
Spec == Init /\ [][Next]_vars

(* How far each case got (TLC register c holds the furthest event reached).  *)
ASSUME \A i \in 1..NCases : TLCSet(i, 0)
Progress == TLCSet(cs, Max2(l, TLCGet(cs)))
View == <<cs, l, t>>
(* One line per case: the events consumed and the events there are.          *)
Report == /\ \A i \in 1..NCases :
               PrintT(<<"CASE", i, TLCGet(i) - 1, Len(Cases[i].ev)>>)
          /\ \A i \in 1..NCases : TLCGet(i) - 1 = Len(Cases[i].ev)
=============================================================================
