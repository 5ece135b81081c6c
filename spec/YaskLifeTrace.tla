---------------------------- MODULE YaskLifeTrace ----------------------------
(* Checks recorded histories against YaskLife.  Each case: [P, ns, ev]; an   *)
(* event has its operation's fields and                                      *)
(*   ex: refused,  log: [tag, s, a, b, r, x] of each hook called,            *)
(*   get: which (0 first, 1 last), val;  win: v, lo, hi;  stor: v, y;        *)
(*   geom: rs, gs;  stats: el, st                                            *)
EXTENDS YaskLife, Json, IOUtils, TLCExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NCases == Len(Cases)
VARIABLES cs, l, q
vars == <<cs, l, q>>

LogOK(m, o) == /\ Len(m) = Len(o)
               /\ \A j \in 1..Len(m) :
                    /\ m[j].tag = o[j].tag /\ m[j].s = o[j].s /\ m[j].a = o[j].a /\ m[j].b = o[j].b
                    /\ m[j].x \in {o[j].x, 2}
                    /\ m[j].r # UND => m[j].r = o[j].r
Seen(P, qq, e) ==
    LET s == qq.sol[e.s]
    IN CASE e.op = "get" -> \/ e.ex = 1
                            \/ LET x == Rd(P, s, e.v, IF e.w = 0 THEN s.lo[e.v] ELSE LastOf(P, s, e.v))
                               IN x = UND \/ x = e.val
         [] e.op = "win" -> e.lo = s.lo[e.v] /\ e.hi = LastOf(P, s, e.v)
         [] e.op = "stor" -> e.y = (IF s.st[e.v] # 0 THEN 1 ELSE 0)
         [] e.op = "geom" -> e.rs = s.rs /\ e.gs = s.gs
         [] e.op = "stats" -> e.el = s.el /\ e.st = s.steps
         [] OTHER -> TRUE
Step(P, qq, e) == IF ~Seen(P, qq, e) THEN {} ELSE {r.q : r \in {x \in Do(P, qq, e) : x.ex = e.ex /\ LogOK(x.q.log, e.log)}}

Init == /\ cs \in 1..NCases
        /\ l = 1
        /\ q = InitLife(Cases[cs].ns)
Next == /\ l <= Len(Cases[cs].ev)
        /\ q' \in Step(Cases[cs].P, q, Cases[cs].ev[l])
        /\ l' = l + 1
        /\ cs' = cs
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..NCases : TLCSet(i, 0)
Progress == TLCSet(cs, IF l > TLCGet(cs) THEN l ELSE TLCGet(cs))
Report == /\ \A i \in 1..NCases : PrintT(<<"CASE", i, TLCGet(i) - 1, Len(Cases[i].ev)>>)
          /\ \A i \in 1..NCases : TLCGet(i) - 1 = Len(Cases[i].ev)
=============================================================================
