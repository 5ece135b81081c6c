-------------------------- MODULE YaskCmdLineTrace ---------------------------
(* Checks recorded calls against YaskCmdLine.  Each case: [T, ev], events    *)
(*   [op: "opts", s, exc, rem]  options given in one string                  *)
(*   [op: "optv", a, exc, rem]  options given as arguments                   *)
(*   [op: "set", i, v]          an API call sets a setting                   *)
(*   [op: "vals", v]            of each option, the values of its settings,  *)
(*                              reported in text                             *)
(*   [op: "eff", e: sequence of [i, v]]  settings reported by the API        *)
(*   [op: "prep"]               the solution adjusts the settings            *)
EXTENDS YaskCmdLine, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NCases == Len(Cases)
Max2(a, b) == IF a > b THEN a ELSE b
(* q: known: whether the settings are known; vs: their values.               *)
VARIABLES cs, l, q
vars == <<cs, l, q>>

FromReport(T, n, v) ==
    [i \in 1..n |-> LET k == CHOOSE k \in 1..Len(T) : \E j \in 1..Len(T[k].vars) : T[k].vars[j] = i
                        j == CHOOSE j \in 1..Len(T[k].vars) : T[k].vars[j] = i
                    IN  v[k][j]]
Given(T, args, qq, e) ==
    LET r == Apply(T, args, qq.vs) rem == Tokens(e.rem)
    IN  IF e.exc = 1 THEN IF r.err THEN {qq} ELSE {}
        ELSE IF ~r.err /\ ~rem.err /\ rem.args = r.rest THEN {[qq EXCEPT !.vs = r.vs]} ELSE {}
Step(T, qq, e) ==
    CASE e.op = "opts" ->
            LET t == Tokens(e.s)
            IN  IF t.err THEN IF e.exc = 1 THEN {qq} ELSE {} ELSE Given(T, t.args, qq, e)
      [] e.op = "optv" -> Given(T, e.a, qq, e)
      [] e.op = "set" -> {[qq EXCEPT !.vs = SetAll(qq.vs, <<e.i>>, e.v)]}
      [] e.op = "vals" ->
            LET vs == IF qq.known THEN qq.vs ELSE FromReport(T, e.n, e.v)
            IN  IF \A k \in 1..Len(T) : \A j \in 1..Len(T[k].vars) : e.v[k][j] = vs[T[k].vars[j]]
                THEN {[known |-> TRUE, vs |-> vs]} ELSE {}
      [] e.op = "eff" -> IF \A k \in 1..Len(e.e) : qq.vs[e.e[k].i] = e.e[k].v THEN {qq} ELSE {}
      [] e.op = "prep" -> {[qq EXCEPT !.known = FALSE]}
      [] OTHER -> {}

Init == /\ cs \in 1..NCases
        /\ l = 1
        /\ q = [known |-> FALSE, vs |-> <<>>]
Next == /\ l <= Len(Cases[cs].ev)
        /\ q' \in Step(Cases[cs].T, q, Cases[cs].ev[l])
        /\ l' = l + 1
        /\ cs' = cs
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..NCases : TLCSet(i, 0)
Progress == TLCSet(cs, Max2(l, TLCGet(cs)))
Report == /\ \A i \in 1..NCases : PrintT(<<"CASE", i, TLCGet(i) - 1, Len(Cases[i].ev)>>)
          /\ \A i \in 1..NCases : TLCGet(i) - 1 = Len(Cases[i].ev)
=============================================================================
