------------------------------ MODULE YaskStore -----------------------------
(* Storage of variables: which there is, who shares it, what it holds, and   *)
(* how its layout follows from what was asked for.  Variables are handles;   *)
(* each refers to a base, which has sizes and maybe storage; fusing makes a  *)
(* handle refer to another's base.                                           *)
(*   P: [nr: ranks, rk: this rank's position in the first domain dim,        *)
(*       dd: domain dims, prog: the program's variables, each                *)
(*           [n: name, dm: dims, sz, mi: sizes and first indices (UND: not   *)
(*            known yet), out: written by the program]]                      *)
(* State: [sol: solutions (<<>>: does not exist), b: bases, o: who holds what]*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

UND == 2000000001          \* not known (yet)
Max2(a, b) == IF a > b THEN a ELSE b
Mod(a, m) == ((a % m) + m) % m
Prod(s) == FoldLeft(LAMBDA z, x : z * x, 1, s)

Kind(P, d) == IF d = "t" THEN "t" ELSE IF \E i \in 1..Len(P.dd) : P.dd[i] = d THEN "d" ELSE "m"
Posn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
DimOf(b, d) == Posn(b.dm, d)
Dims(b) == 1..Len(b.dm)

(* A base.  Per dim: sz: size of the domain, or of the dim; lh, rh: halos;   *)
(* ml, mr: padding asked for; lp, rp: padding there is; mi: first misc index;*)
(* of: this rank's position.  al: has storage; df: the value of all elements *)
(* but those in ov, a set of <<indices, value>> with steps modulo their      *)
(* number.  lo: first valid step.  nat: a variable of a solution's program;  *)
(* fx: sizes do not follow the solution's; ds, dy: step and misc sizes may be*)
(* changed.                                                                  *)
Rep(n, x) == [i \in 1..n |-> x]
NewBase(nm, dm, nat, fx) ==
    LET n == Len(dm)
    IN [nm |-> nm, dm |-> dm, nat |-> nat, fx |-> fx, ds |-> ~nat, dy |-> TRUE, al |-> FALSE,
        sz |-> Rep(n, UND), lh |-> Rep(n, UND), rh |-> Rep(n, UND), ml |-> Rep(n, 0), mr |-> Rep(n, 0),
        lp |-> Rep(n, UND), rp |-> Rep(n, UND), mi |-> Rep(n, UND), of |-> Rep(n, UND),
        lo |-> UND, df |-> UND, ov |-> {}]

NewSol(P, id) ==
    [rs |-> Rep(Len(P.dd), 0), gs |-> Rep(Len(P.dd), 0), mp |-> Rep(Len(P.dd), 0),
     pr |-> FALSE, pb |-> <<>>,                              \* prepared, with which bases
     h |-> [i \in 1..Len(P.prog) |-> [n |-> P.prog[i].n, b |-> id + i - 1]]]   \* variables

InitStore(n) == [sol |-> [i \in 1..n |-> <<>>], b |-> <<>>]
IsLive(s) == s # <<>>
HasVar(s, nm) == \E i \in 1..Len(s.h) : s.h[i].n = nm
HPos(s, nm) == CHOOSE i \in 1..Len(s.h) : s.h[i].n = nm
BaseOf(q, s, nm) == q.sol[s].h[HPos(q.sol[s], nm)].b
Held(q, s) == {q.sol[s].h[i].b : i \in 1..Len(q.sol[s].h)}

(* ---- what is not known again after something it depends on changes ------ *)
Loose(b) == IF b.al THEN b ELSE [b EXCEPT !.lp = Rep(Len(b.dm), UND), !.rp = Rep(Len(b.dm), UND)]
(* A base follows a solution's sizes. *)
Follow(P, sol, b, force) ==
    IF b.fx /\ ~(b.nat /\ force) THEN b
    ELSE Loose([b EXCEPT !.of = Rep(Len(b.dm), UND),
                         !.sz = [i \in Dims(b) |-> IF Kind(P, b.dm[i]) # "d" \/ b.al THEN @[i] ELSE sol.rs[Posn(P.dd, b.dm[i])]],
                         !.ml = [i \in Dims(b) |-> IF Kind(P, b.dm[i]) # "d" \/ b.al THEN @[i] ELSE Max2(@[i], sol.mp[Posn(P.dd, b.dm[i])])],
                         !.mr = [i \in Dims(b) |-> IF Kind(P, b.dm[i]) # "d" \/ b.al THEN @[i] ELSE Max2(@[i], sol.mp[Posn(P.dd, b.dm[i])])]])
FollowAll(P, q, s, force) == [q EXCEPT !.b = [k \in DOMAIN @ |-> IF k \in Held(q, s) THEN Follow(P, q.sol[s], @[k], force) ELSE @[k]]]
(* Storage there is must have the solution's size. *)
SizesOK(P, q, s, rs, force) ==
    \A k \in Held(q, s) :
        LET b == q.b[k]
        IN (b.al /\ (~b.fx \/ (b.nat /\ force))) =>
            \A i \in Dims(b) : Kind(P, b.dm[i]) = "d" => b.sz[i] = rs[Posn(P.dd, b.dm[i])]

(* ------------------------- elements -------------------------------------- *)
Known(b) == \A i \in Dims(b) : b.sz[i] # UND /\ (b.dm[i] = "t" => b.lo # UND)
First(P, b, i) == CASE Kind(P, b.dm[i]) = "t" -> b.lo
                    [] Kind(P, b.dm[i]) = "m" -> b.mi[i]
                    [] OTHER -> b.of[i] - b.lp[i]
Last2(P, b, i) == CASE Kind(P, b.dm[i]) = "t" -> b.lo + b.sz[i] - 1
                    [] Kind(P, b.dm[i]) = "m" -> b.mi[i] + b.sz[i] - 1
                    [] OTHER -> b.of[i] + b.sz[i] + b.rp[i] - 1
InDim(P, b, ix, i) == ix[i] >= First(P, b, i) /\ ix[i] <= Last2(P, b, i)
Inside(P, b, ix) == \A i \in Dims(b) : InDim(P, b, ix, i)
InsideBut(P, b, ix) == \A i \in Dims(b) : b.dm[i] = "t" \/ InDim(P, b, ix, i)
HasSteps(b) == \A i \in Dims(b) : b.dm[i] = "t" => b.sz[i] > 0
Slot(b, ix) == [i \in Dims(b) |-> IF b.dm[i] = "t" THEN Mod(ix[i], b.sz[i]) ELSE ix[i]]
ElemAt(b, ix) == LET m == {x \in b.ov : x[1] = Slot(b, ix)} IN IF m = {} THEN b.df ELSE (CHOOSE x \in m : TRUE)[2]
Put(b, ix, x) == [b EXCEPT !.ov = {y \in @ : y[1] # Slot(b, ix)} \cup {<<Slot(b, ix), x>>}]
Step(b, ix) ==
    IF \E i \in Dims(b) : b.dm[i] = "t"
    THEN LET i == DimOf(b, "t")
             t == ix[i]
         IN [b EXCEPT !.lo = IF t < @ THEN t ELSE IF t > @ + b.sz[i] - 1 THEN t - b.sz[i] + 1 ELSE @]
    ELSE b
Empty(b) == [b EXCEPT !.al = FALSE, !.df = UND, !.ov = {}]
Alloc(b) == [b EXCEPT !.al = TRUE, !.df = UND, !.ov = {}]

(* ------------------------- operations ------------------------------------ *)
Out(q, ex) == {[q |-> q, ex |-> ex]}
Refuse(q) == Out(q, 1)
SetB(q, k, b) == [q EXCEPT !.b[k] = b]
SetS(q, s, x) == [q EXCEPT !.sol[s] = x]
At(f, i, x) == [f EXCEPT ![i] = x]

(* Settings of one variable.  e.d: dim, e.n: value *)
VarOp(P, q, e) ==
    LET k == BaseOf(q, e.s, e.v)
        b == q.b[k]
        has == \E i \in Dims(b) : b.dm[i] = e.d
        i == DimOf(b, e.d)
        kd == Kind(P, e.d)
        side == IF e.w = "l" THEN {"l"} ELSE IF e.w = "r" THEN {"r"} ELSE {"l", "r"}
        may == CASE kd = "t" -> b.ds [] kd = "d" -> b.fx [] OTHER -> b.dy
    IN IF ~has THEN Refuse(q)
       ELSE CASE e.op = "halo" ->
                   LET b2 == [b EXCEPT !.lh[i] = IF "l" \in side THEN e.n ELSE @, !.rh[i] = IF "r" \in side THEN e.n ELSE @]
                   IN IF kd # "d" \/ e.n < 0 THEN Refuse(q)
                      ELSE IF ~b.al THEN Out(SetB(q, k, Loose(b2)), 0)
                      ELSE IF ("l" \in side => e.n <= b.lh[i]) /\ ("r" \in side => e.n <= b.rh[i]) THEN Out(SetB(q, k, b2), 0)
                      ELSE IF ("l" \in side => e.n <= b.lp[i]) /\ ("r" \in side => e.n <= b.rp[i])
                           THEN Out(SetB(q, k, b2), 0) \cup Refuse(q)
                      ELSE Refuse(q)
              [] e.op = "pad" ->
                   IF kd # "d" \/ e.n < 0 THEN Refuse(q)
                   \* ignored, at least for the storage there is
                   ELSE IF b.al THEN Out(SetB(q, k, [b EXCEPT !.ml[i] = IF "l" \in side /\ e.n < @ THEN e.n ELSE @,
                                                              !.mr[i] = IF "r" \in side /\ e.n < @ THEN e.n ELSE @]), 0)
                   ELSE Out(SetB(q, k, Loose([b EXCEPT !.ml[i] = IF "l" \in side THEN e.n ELSE @,
                                                       !.mr[i] = IF "r" \in side THEN e.n ELSE @])), 0)
              [] e.op = "size" ->
                   IF ~may \/ e.n < 0 THEN Refuse(q)
                   ELSE IF b.al THEN (IF b.sz[i] = e.n THEN Out(q, 0) ELSE {}) \cup Refuse(q)
                   ELSE Out(SetB(q, k, Loose([b EXCEPT !.sz[i] = e.n, !.lo = IF kd = "t" THEN UND ELSE @])), 0)
              [] e.op = "first" ->
                   IF kd # "m" THEN Refuse(q)
                   ELSE Out(SetB(q, k, [b EXCEPT !.mi[i] = e.n,
                                                 !.ov = {<<[x[1] EXCEPT ![i] = @ + (e.n - b.mi[i])], x[2]>> : x \in b.ov}]), 0)
                        \cup (IF b.nat THEN Refuse(q) ELSE {})

(* Handle v of s becomes another handle of the base of handle e.y of e.x. *)
Fuse1(P, q, s, v, s2, v2) ==
    LET k == BaseOf(q, s, v)
        k2 == BaseOf(q, s2, v2)
        b == q.b[k]
        b2 == q.b[k2]
        grow(f, g) == [i \in Dims(b) |-> IF Kind(P, b.dm[i]) = "d" THEN Max2(f[i], g[i]) ELSE f[i]]
        bn == Loose([b2 EXCEPT !.nat = TRUE, !.lh = grow(@, b.lh), !.rh = grow(@, b.rh), !.ds = b.ds, !.dy = b.dy])
        fits == \A i \in Dims(b) : Kind(P, b.dm[i]) = "d" \/ (b.sz[i] = b2.sz[i] /\ (b.dm[i] = "t" \/ b.mi[i] = b2.mi[i]))
        same == \A i \in Dims(b) : Kind(P, b.dm[i]) # "d" \/ (b.lh[i] <= b2.lh[i] /\ b.rh[i] <= b2.rh[i])
        room == \A i \in Dims(b) : Kind(P, b.dm[i]) # "d" \/ (bn.lh[i] <= b2.lp[i] /\ bn.rh[i] <= b2.rp[i])
        q2 == [q EXCEPT !.sol[s].h[HPos(q.sol[s], v)].b = k2]
    IN IF k = k2 THEN Out(q, 0)
       ELSE IF b.dm # b2.dm THEN Refuse(q)
       ELSE IF ~b.nat THEN Out(q2, 0)
       ELSE IF ~fits THEN Refuse(q)
       ELSE IF ~b2.al \/ same THEN Out(SetB(q2, k2, bn), 0)
       ELSE IF room THEN Out(SetB(q2, k2, bn), 0) \cup Refuse(q)
       ELSE Refuse(q)

PrepSize(P, s) == [i \in 1..Len(P.dd) |->
    LET nr == IF i = 1 THEN P.nr ELSE 1
    IN IF s.gs[i] = 0 THEN s.rs[i] * nr ELSE IF s.rs[i] = 0 \/ s.rs[i] * nr = s.gs[i] THEN s.gs[i] ELSE 0]
PrepRank(P, z) == [i \in 1..Len(P.dd) |-> z[i] \div (IF i = 1 THEN P.nr ELSE 1)]
(* A refused update of all variables may have changed sizes that follow the  *)
(* solution's.                                                               *)
Vague(P, q, s) ==
    [q EXCEPT !.b = [k \in DOMAIN @ |-> IF k \in Held(q, s) /\ (~@[k].fx \/ @[k].nat)
        THEN LET b == Loose(@[k])
             IN [b EXCEPT !.of = Rep(Len(b.dm), UND),
                          !.sz = [i \in Dims(b) |-> IF Kind(P, b.dm[i]) = "d" /\ ~b.al THEN UND ELSE @[i]]]
        ELSE @[k]]]
Prep(P, q, e) ==
    LET s == q.sol[e.s]
        z == PrepSize(P, s)
        rs == PrepRank(P, z)
        ok == (\A i \in 1..Len(P.dd) : z[i] # 0) /\ SizesOK(P, q, e.s, rs, TRUE)
        s2 == [s EXCEPT !.pr = TRUE, !.rs = rs, !.gs = z, !.pb = [i \in 1..Len(s.h) |-> s.h[i].b]]
        q1 == FollowAll(P, SetS(q, e.s, s2), e.s, TRUE)
        here(b) == [b EXCEPT !.of = [i \in Dims(b) |-> IF Kind(P, b.dm[i]) = "d" /\ b.dm[i] = P.dd[1] THEN P.rk * rs[1] ELSE 0]]
        vague(sol) == Vague(P, SetS(q, e.s, [sol EXCEPT !.pr = FALSE]), e.s)
    IN IF ok THEN Out([q1 EXCEPT !.b = [k \in DOMAIN @ |-> IF k \in Held(q, e.s)
              THEN LET b == IF @[k].fx /\ ~@[k].nat THEN @[k] ELSE here(@[k]) IN IF b.al THEN b ELSE Alloc(b)
              ELSE @[k]]], 0)
       ELSE {[q |-> vague(sol), ex |-> 1] : sol \in {s, [s EXCEPT !.rs = rs, !.gs = z]}}

NatPos(P, s) == 1..Len(P.prog)
Ready(P, q, s) == LET x == q.sol[s]
                  IN x.pr /\ (\A w \in NatPos(P, x) : (x.pb[w] = x.h[w].b /\ q.b[x.h[w].b].al))
                     /\ \A i \in NatPos(P, x) : LET b == q.b[x.h[i].b]
                            IN \A j \in Dims(b) : Kind(P, b.dm[j]) = "d" => b.sz[j] = x.rs[Posn(P.dd, b.dm[j])]
(* A run changes what the program writes, and other ranks' copies. *)
RunEff(P, q, s) ==
    LET x == q.sol[s]
        outs == {x.h[i].b : i \in {j \in NatPos(P, x) : P.prog[j].out}}
        ins == {x.h[i].b : i \in NatPos(P, x)} \ outs
        own(b, ix) == \A i \in Dims(b) : Kind(P, b.dm[i]) = "d" => (ix[i] >= b.of[i] /\ ix[i] < b.of[i] + b.sz[i])
    IN [q EXCEPT !.b = [k \in DOMAIN @ |->
         IF k \in outs THEN [@[k] EXCEPT !.df = UND, !.ov = {}, !.lo = UND]
         ELSE IF k \in ins /\ P.nr > 1 THEN [@[k] EXCEPT !.df = UND, !.ov = {y \in @ : own(q.b[k], y[1])}]
         ELSE @[k]]]

DoOp(P, q, e) ==
    LET s == IF e.s = 0 THEN <<>> ELSE q.sol[e.s]
        bo == BaseOf(q, e.s, e.v)
        b == q.b[bo]
        dp == Posn(P.dd, e.d)
    IN CASE e.op = "new" ->
              Out([q EXCEPT !.sol[e.s] = NewSol(P, Len(q.b) + 1),
                            !.b = @ \o [i \in 1..Len(P.prog) |-> [NewBase(P.prog[i].n, P.prog[i].dm, TRUE, FALSE) EXCEPT !.dy = P.dy, !.sz = P.prog[i].sz, !.mi = P.prog[i].mi]]], 0)
         [] e.op = "del" -> Out(SetS(q, e.s, <<>>), 0)
         [] e.op = "rsize" ->
              LET s2 == [s EXCEPT !.rs = At(@, dp, e.n), !.pr = FALSE]
              IN IF SizesOK(P, q, e.s, s2.rs, FALSE) THEN Out(FollowAll(P, SetS(q, e.s, s2), e.s, FALSE), 0)
                 ELSE Out(Vague(P, q, e.s), 1)
         [] e.op = "minpad" ->
              IF e.n < 0 THEN Out(q, 1)
              ELSE LET q2 == FollowAll(P, SetS(q, e.s, [s EXCEPT !.mp = At(@, dp, e.n)]), e.s, FALSE) IN IF SizesOK(P, q, e.s, s.rs, FALSE) THEN Out(q2, 0)
                      ELSE {[q |-> Vague(P, x, e.s), ex |-> 1] : x \in {q, SetS(q, e.s, [s EXCEPT !.mp = At(@, dp, e.n)])}}
         [] e.op = "newvar" ->       \* e.v, e.dm;  e.z: sizes, or <<>>
              LET fx == e.z # <<>>
                  n == Len(e.dm)
                  bad == \/ HasVar(s, e.v)
                         \/ \E i, j \in 1..n : i # j /\ e.dm[i] = e.dm[j]
                         \/ \E i \in 2..n : e.dm[i] = "t"
                         \/ fx /\ (Len(e.z) # n \/ \E i \in 1..Len(e.z) : e.z[i] < 0)
                  b0 == NewBase(e.v, e.dm, FALSE, fx)
                  b1 == IF fx THEN [b0 EXCEPT !.sz = e.z, !.of = Rep(n, 0)] ELSE b0
                  q2 == [q EXCEPT !.b = Append(@, b1), !.sol[e.s].h = Append(@, [n |-> e.v, b |-> Len(q.b) + 1])]
              IN IF bad THEN Refuse(q)
                 ELSE IF ~fx /\ ~SizesOK(P, q, e.s, s.rs, FALSE) THEN Out(Vague(P, q, e.s), 1)
                 ELSE Out(IF fx THEN q2 ELSE FollowAll(P, q2, e.s, FALSE), 0)
         [] e.op \in {"halo", "pad", "size", "first"} -> VarOp(P, q, e)
         [] e.op = "alloc" -> Out(SetB(q, bo, Alloc(b)), 0)
         [] e.op = "rel" -> Out(SetB(q, bo, Empty(b)), 0)
         [] e.op = "fuse" -> Fuse1(P, q, e.s, e.v, e.x, e.y)
         [] e.op = "fusesoln" ->     \* each variable, with that of the same name (the name of what it refers to)
              LET one(y, i) == LET nm == y.q.b[y.q.sol[e.s].h[i].b].nm
                               IN IF y.ex = 0 /\ HasVar(y.q.sol[e.x], nm) THEN Fuse1(P, y.q, e.s, s.h[i].n, e.x, nm) ELSE {y}
              IN FoldLeft(LAMBDA z, i : UNION {one(y, i) : y \in z}, Out(q, 0), [i \in 1..Len(s.h) |-> i])
         [] e.op = "prep" -> Prep(P, q, e)
         [] e.op = "end" -> Out(SetS([q EXCEPT !.b = [k \in DOMAIN @ |-> IF k \in Held(q, e.s) THEN Empty(@[k]) ELSE @[k]]],
                                     e.s, [s EXCEPT !.pr = FALSE]), 0)
         [] e.op = "run" -> IF Ready(P, q, e.s) THEN Out(RunEff(P, q, e.s), 0) ELSE Refuse(q)
         [] e.op = "setall" -> Out(IF b.al THEN SetB(q, bo, [b EXCEPT !.df = e.n, !.ov = {}]) ELSE q, 0)
         [] e.op = "set" -> IF b.al /\ HasSteps(b) /\ InsideBut(P, b, e.ix)
                            THEN Out(SetB(q, bo, Put(Step(b, e.ix), e.ix, e.n)), 0)
                            ELSE IF b.al /\ ~HasSteps(b) THEN Out(q, 0) \cup Refuse(q) ELSE Refuse(q)
         [] e.op = "add" -> IF b.al /\ Inside(P, b, e.ix)
                            THEN LET y == ElemAt(b, e.ix) IN Out(SetB(q, bo, Put(b, e.ix, IF y = UND THEN UND ELSE y + e.n)), 0)
                            ELSE Refuse(q)
         [] e.op = "get" -> IF b.al /\ Inside(P, b, e.ix) THEN Out(q, 0) ELSE Refuse(q)
         [] OTHER -> Out(q, 0)       \* local, stor, sameraw, samelay, vinfo
=============================================================================
