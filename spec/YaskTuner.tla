------------------------------- MODULE YaskTuner -----------------------------
(* The auto-tuner of one rank.  It is on or off; while on, every run may     *)
(* change the sizes of the tiles it was told to tune (and of those inside    *)
(* them), to any legal sizes and to nothing else; it turns itself off within *)
(* a bound that depends on the sizes there are, whatever times it measures;  *)
(* while off it changes nothing.  What is computed is not its business:      *)
(* YaskTrace checks the values, whatever the tuner does.                     *)
(*                                                                           *)
(* P: rank: sizes of the rank's domain;  fold: sizes of vectors;             *)
(*    tg: levels to tune (1 mega-blocks ... 5 pico-blocks);                  *)
(*    big: every run lasts longer than a trial may;                          *)
(*    auto: the option that turns it on at preparation                       *)
EXTENDS Integers, Sequences, FiniteSets

UND == 2000000001
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

InitTuner == [on |-> UND, runs |-> 0, steps |-> 0, k |-> 1, sz |-> <<>>, fx |-> <<>>]

(* Sizes of five levels of tiles in each dimension.                          *)
Legal(P, z) ==
    \A l \in 1..5 : \A d \in 1..Len(P.rank) :
        LET out == IF l = 1 THEN P.rank[d] ELSE z[l - 1][d]
        IN  /\ 1 <= z[l][d] /\ z[l][d] <= out
            /\ z[l][d] % P.fold[d] = 0 \/ z[l][d] = out

(* Tiles outside all those to tune.                                          *)
Outer(P, z) == [l \in 1..5 |-> IF \E i \in 1..Len(P.tg) : P.tg[i] <= l THEN <<>> ELSE z[l]]

RECURSIVE ProdUp(_, _)
ProdUp(P, d) == IF d > Len(P.rank) THEN 1 ELSE (CeilDiv(P.rank[d], P.fold[d]) + 1) * ProdUp(P, d + 1)
Trials(P) == Len(P.tg) * (ProdUp(P, 1) + 1)
(* Has it run long enough?  Warming up takes at most 1000 steps, and a trial *)
(* 500, rounded up to whole runs; or one run each if they are long.          *)
Over(P, q) == \/ P.big = 1 /\ q.runs > 1 + Trials(P)
              \/ q.steps > 1000 + q.k + Trials(P) * (500 + q.k)

Turn(q, on) == [q EXCEPT !.on = on, !.runs = 0, !.steps = 0, !.sz = IF q.on = 1 THEN <<>> ELSE @]
Ran(q, n, k) == [q EXCEPT !.runs = @ + n, !.steps = @ + n * k, !.k = Max2(@, k), !.sz = IF n > 0 THEN <<>> ELSE @]

Do(P, q, e) ==
    CASE e.op = "prep" -> {[InitTuner EXCEPT !.on = P.auto]}
      [] e.op = "at"   -> {Turn(q, e.on)}
      [] e.op = "run"  -> IF q.on = 0 THEN {q}
                          ELSE {x \in {[Ran(q, 1, e.k) EXCEPT !.on = y] : y \in {0, 1}} : x.on = 1 => ~Over(P, x)}
      [] e.op = "until" -> IF q.on = 0 THEN {x \in {q} : e.n = 0 /\ e.on = 0}
                           ELSE {x \in {[Ran(q, e.n, e.k) EXCEPT !.on = e.on]} :
                                     /\ e.n > 0
                                     /\ ~Over(P, IF e.on = 1 THEN x ELSE Ran(q, e.n - 1, e.k))}
      [] e.op = "now"  -> {[Turn(q, 0) EXCEPT !.sz = <<>>]}
      [] e.op = "atq"  -> {x \in {q} : e.on = q.on}
      [] e.op = "sizes" -> {x \in {[q EXCEPT !.sz = e.z, !.fx = <<Outer(P, e.z), e.t>>]} :
                               /\ Legal(P, e.z)
                               /\ q.sz # <<>> => q.sz = e.z
                               /\ q.fx # <<>> => q.fx = x.fx}
=============================================================================
