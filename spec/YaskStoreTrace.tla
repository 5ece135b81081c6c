---------------------------- MODULE YaskStoreTrace ---------------------------
(* Checks recorded histories against YaskStore.  An event has its            *)
(* operation's fields and ex: refused;  get: val;  local: r;  stor: y;       *)
(* sameraw, samelay: r;  vinfo: al, dyn, fx, ne, nb, eb, d: per dim          *)
(* <<size, first, last>> for steps and misc dims, and for domain dims        *)
(* <<size, first, last, lhalo, rhalo, first and last with halos, lpad, rpad, *)
(* lextra, rextra, first and last with pads, alloc>>                         *)
EXTENDS YaskStore, Json, IOUtils, TLCExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NCases == Len(Cases)
VARIABLES cs, l, q
vars == <<cs, l, q>>

Is(x, y) == x = UND \/ x = y
DimOK(P, b, i, z) ==
    CASE Kind(P, b.dm[i]) = "t" -> Is(b.sz[i], z[1]) /\ Is(b.lo, z[2]) /\ z[3] = z[2] + z[1] - 1
      [] Kind(P, b.dm[i]) = "m" -> Is(b.sz[i], z[1]) /\ Is(b.mi[i], z[2]) /\ z[3] = z[2] + z[1] - 1
      [] OTHER ->
           /\ Is(b.sz[i], z[1]) /\ Is(b.of[i], z[2]) /\ z[3] = z[2] + z[1] - 1
           /\ Is(b.lh[i], z[4]) /\ Is(b.rh[i], z[5]) /\ z[6] = z[2] - z[4] /\ z[7] = z[3] + z[5]
           /\ Is(b.lp[i], z[8]) /\ Is(b.rp[i], z[9])
           /\ z[8] >= Max2(z[4], b.ml[i]) /\ z[9] >= Max2(z[5], b.mr[i])
           /\ z[10] = z[8] - z[4] /\ z[11] = z[9] - z[5]
           /\ z[12] = z[2] - z[8] /\ z[13] = z[3] + z[9] /\ z[14] = z[8] + z[1] + z[9]
           /\ z[4] >= 0 /\ z[5] >= 0 /\ z[1] >= 0
SizeOf(P, b, i, z) == IF Kind(P, b.dm[i]) = "d" THEN z[14] ELSE z[1]
InfoOK(P, b, e) ==
    /\ e.dm = b.dm
    /\ e.al = (IF b.al THEN 1 ELSE 0)
    /\ e.dyn = (IF b.ds THEN 1 ELSE 0) /\ e.fx = (IF b.fx THEN 1 ELSE 0)
    /\ \A i \in Dims(b) : DimOK(P, b, i, e.d[i])
    /\ LET n == Prod([i \in Dims(b) |-> SizeOf(P, b, i, e.d[i])]) IN e.ne >= n /\ e.nb = e.ne * e.eb
Pin(P, b, e) ==
    LET dom(i) == Kind(P, b.dm[i]) = "d"
        two(f, j) == [i \in Dims(b) |-> IF dom(i) THEN e.d[i][j] ELSE f[i]]
    IN [b EXCEPT !.sz = [i \in Dims(b) |-> e.d[i][1]], !.of = two(@, 2), !.lh = two(@, 4), !.rh = two(@, 5),
                 !.lp = two(@, 8), !.rp = two(@, 9),
                 !.mi = [i \in Dims(b) |-> IF Kind(P, b.dm[i]) = "m" THEN e.d[i][2] ELSE @[i]],
                 !.lo = IF \E i \in Dims(b) : b.dm[i] = "t" THEN e.d[DimOf(b, "t")][2] ELSE @]

Seen(P, qq, e) ==
    LET k == BaseOf(qq, e.s, e.v)
        b == qq.b[k]
        k2 == BaseOf(qq, e.x, e.y)
        b2 == qq.b[k2]
    IN CASE e.op = "get" -> e.ex = 1 \/ (IF b.al THEN Is(ElemAt(b, e.ix), e.val) ELSE FALSE)
         [] e.op = "local" -> e.r = (IF b.al /\ Inside(P, b, e.ix) THEN 1 ELSE 0)
         [] e.op = "stor" -> e.yy = (IF b.al THEN 1 ELSE 0)
         [] e.op = "sameraw" -> e.r = (IF k = k2 \/ (~b.al /\ ~b2.al) THEN 1 ELSE 0)
         [] e.op = "samelay" -> e.r = (IF b.dm = b2.dm /\ b.sz = b2.sz /\ b.lp = b2.lp /\ b.rp = b2.rp THEN 1 ELSE 0)
         [] e.op = "vinfo" -> InfoOK(P, b, e)
         [] OTHER -> TRUE
Next1(P, qq, e) ==
    IF ~Seen(P, qq, e) THEN {}
    ELSE IF e.op = "vinfo" THEN LET k == BaseOf(qq, e.s, e.v) IN {SetB(qq, k, Pin(P, qq.b[k], e))}
    ELSE {r.q : r \in {x \in DoOp(P, qq, e) : x.ex = e.ex}}

Init == /\ cs \in 1..NCases
        /\ l = 1
        /\ q = InitStore(Cases[cs].ns)
Next == /\ l <= Len(Cases[cs].ev)
        /\ q' \in Next1(Cases[cs].P, q, Cases[cs].ev[l])
        /\ l' = l + 1
        /\ cs' = cs
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..NCases : TLCSet(i, 0)
Progress == TLCSet(cs, IF l > TLCGet(cs) THEN l ELSE TLCGet(cs))
Report == /\ \A i \in 1..NCases : PrintT(<<"CASE", i, TLCGet(i) - 1, Len(Cases[i].ev)>>)
          /\ \A i \in 1..NCases : TLCGet(i) - 1 = Len(Cases[i].ev)
=============================================================================
