--------------------------- MODULE YaskDecompTrace ---------------------------
(* Checks recorded histories of settings, preparations and queries on all    *)
(* ranks of one program against YaskDecomp.  Each case: [P, ev], events      *)
(*   [op: "set", w: ranks, k, i, v, ex: ranks that got an exception]         *)
(*   [op: "prep", ok]   [op: "end"]                                          *)
(*   [op: "geom", o: per rank [osz, rsz, nr, ri, x (0: not prepared),        *)
(*                             frd, lrd, vs: of each variable, per dim       *)
(*                             [dim, size, first, last]]]                    *)
EXTENDS YaskDecomp, Json, IOUtils, TLCExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NCases == Len(Cases)

VARIABLES cs, l, q
vars == <<cs, l, q>>

Rng(s) == {s[i] : i \in DOMAIN s}
SeqIs(s, f, n) == Len(s) = n /\ \A j \in 1..n : s[j] = f[j]

GeomOK(P, qq, o) == \A r \in DRanks(P) :
    /\ SeqIs(o[r].osz, qq[r].gs, P.d)
    /\ SeqIs(o[r].rsz, qq[r].rs, P.d)
    /\ SeqIs(o[r].nr, qq[r].nr, P.d)
    /\ SeqIs(o[r].ri, qq[r].ri, P.d)
    /\ o[r].x = 1 =>
         /\ \A j \in DDims(P) : o[r].frd[j] = FirstIx(P, qq, r, j) /\ o[r].lrd[j] = LastIx(P, qq, r, j)
         /\ \A k \in 1..Len(o[r].vs) :
              LET v == o[r].vs[k] j == v[1]
              IN v[2] = qq[r].rs[j] /\ v[3] = FirstIx(P, qq, r, j) /\ v[4] = LastIx(P, qq, r, j)

Step(P, qq, e) ==
    CASE e.op = "set" ->
           LET s2 == [r \in DRanks(P) |-> IF r \in Rng(e.w) THEN SetField(P, qq[r], e.k, e.i, e.v) ELSE qq[r]]
           IN IF \A r \in DRanks(P) :
                    IF r \in Rng(e.ex) THEN \/ e.how = "api" /\ TooSmall(P, s2[r])
                                            \/ qq[r].st /\ s2[r].rs # qq[r].rs /\ e.how = "api"
                    ELSE ~(r \in Rng(e.w) /\ e.how = "api" /\ (TooSmall(P, s2[r]) \/ (qq[r].st /\ s2[r].rs # qq[r].rs)))
              \* a refused setting changes nothing
              THEN {[r \in DRanks(P) |-> IF r \in Rng(e.ex) THEN qq[r] ELSE s2[r]]} ELSE {}
      [] e.op = "badset" -> IF Rng(e.ex) = Rng(e.w) THEN {qq} ELSE {}
      [] e.op = "prep" -> IF e.ok = 1 THEN Prepared(P, qq) ELSE IF MayRefuse(P, qq) THEN {qq} ELSE {}
      [] e.op = "end" -> {[r \in DRanks(P) |-> [qq[r] EXCEPT !.st = FALSE]]}
      [] e.op = "geom" -> IF GeomOK(P, qq, e.o) THEN {qq} ELSE {}
      [] OTHER -> {}

Init == /\ cs \in 1..NCases
        /\ l = 1
        /\ q = InitDecomp(Cases[cs].P)
Next == /\ l <= Len(Cases[cs].ev)
        /\ q' \in Step(Cases[cs].P, q, Cases[cs].ev[l])
        /\ l' = l + 1
        /\ cs' = cs
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..NCases : TLCSet(i, 0)
Progress == TLCSet(cs, Max2(l, TLCGet(cs)))
(* The theorem, on every prepared state reached. *)
TilesInv == (l > 1 /\ l - 1 <= Len(Cases[cs].ev) /\ Cases[cs].ev[l - 1].op = "prep" /\ Cases[cs].ev[l - 1].ok = 1)
              => Tiles(Cases[cs].P, q)
Report == /\ \A i \in 1..NCases : PrintT(<<"CASE", i, TLCGet(i) - 1, Len(Cases[i].ev)>>)
          /\ \A i \in 1..NCases : TLCGet(i) - 1 = Len(Cases[i].ev)
=============================================================================
