----------------------------- MODULE YaskDecomp -----------------------------
(* How the ranks share the overall domain.  Every rank holds settings of the *)
(* overall-domain sizes, its own domain sizes, the numbers of ranks and its  *)
(* own rank indices, one per domain dimension, 0 meaning "to be decided".    *)
(* Setters change them on the rank that calls them; Prep, which all ranks    *)
(* call together, either decides the rest or refuses.                        *)
(*   P = [n: ranks, d: number of domain dims, fold, hal: per dim,            *)
(*        wf: steps in a wave-front (0 = none), stages]                      *)
(*   q = sequence over ranks of [gs, rs, nr, ri: per dim; loc: the rank      *)
(*        index is to be decided; st: variables have storage]                *)
EXTENDS YaskBase

DRanks(P) == 1..P.n
DDims(P) == 1..P.d
DZeros(P) == [j \in DDims(P) |-> 0]

InitDecomp(P) == [r \in DRanks(P) |->
    [gs |-> DZeros(P), rs |-> DZeros(P), nr |-> DZeros(P), ri |-> DZeros(P), loc |-> TRUE, st |-> FALSE]]

RoundUp(a, m) == ((a + m - 1) \div m) * m
CeilDiv(a, b) == (a + b - 1) \div b

RECURSIVE ProdTo(_, _)
ProdTo(f, k) == IF k = 0 THEN 1 ELSE f[k] * ProdTo(f, k - 1)

(* Smallest domain a rank may have in a dimension shared by several ranks. *)
Least(P, j) == P.hal[j] + (IF P.wf = 0 THEN 0 ELSE RoundUp(P.hal[j], P.fold[j]) * (P.stages * P.wf - 1))

-------------------------------- (* Setters *)
(* Rank r sets field k ("gs", "rs", "nr", "ri") of dim i, or of all dims     *)
(* (i = 0), to v.                                                            *)
SetField(P, s, k, i, v) ==
    LET new(old) == [j \in DDims(P) |-> IF i = 0 THEN v[j] ELSE IF j = i THEN v[1] ELSE old[j]]
    IN CASE k = "gs" -> [s EXCEPT !.gs = new(s.gs)]
         [] k = "rs" -> [s EXCEPT !.rs = new(s.rs)]
         [] k = "nr" -> [s EXCEPT !.nr = new(s.nr)]
         [] k = "ri" -> [s EXCEPT !.ri = new(s.ri), !.loc = FALSE]

(* The function that sets a value complains when the known size of the rank  *)
(* is too small; the value is set nevertheless.                              *)
TooSmall(P, s) == \E j \in DDims(P) : s.nr[j] > 1 /\ s.rs[j] # 0 /\ s.rs[j] < Least(P, j)

-------------------------------- (* Preparation *)
Factorings(P) == {f \in [DDims(P) -> 1..P.n] : ProdTo(f, P.d) = P.n}
LegalGrids(P, nr) == {f \in Factorings(P) : \A j \in DDims(P) : nr[j] # 0 => f[j] = nr[j]}

(* Default rank indices: the first dimension varies fastest. *)
Unlayout(P, f, r) == [j \in DDims(P) |-> ((r - 1) \div ProdTo(f, j - 1)) % f[j]]
IndicesOf(P, q, f) == [r \in DRanks(P) |-> IF q[r].loc THEN Unlayout(P, f, r) ELSE q[r].ri]

(* Ranks in line with r in dim j. *)
InLine(P, I, r, j) == {s \in DRanks(P) : \A i \in DDims(P) : i # j => I[s][i] = I[r][i]}

DefaultShare(P, g, nr, ix, j) ==
    LET c == RoundUp(CeilDiv(g, nr), P.fold[j]) IN IF ix = nr - 1 THEN g - c * (nr - 1) ELSE c

RECURSIVE SumOver(_, _)
SumOver(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + SumOver(S \ {x}, g)

(* Sizes of the ranks' domains under grid f with indices I. *)
RankSizes(P, q, f, I) == [r \in DRanks(P) |-> [j \in DDims(P) |->
    IF q[r].rs[j] # 0 THEN q[r].rs[j] ELSE DefaultShare(P, q[r].gs[j], f[j], I[r][j], j)]]
OverallSize(P, q, I, R, r, j) ==
    IF q[r].gs[j] # 0 THEN q[r].gs[j] ELSE SumOver(InLine(P, I, r, j), [s \in DRanks(P) |-> R[s][j]])

Agree(P, q) == \A r \in DRanks(P) : q[r].gs = q[1].gs /\ q[r].nr = q[1].nr /\ q[r].loc = q[1].loc
SizesGiven(P, q) == \A r \in DRanks(P), j \in DDims(P) : q[r].gs[j] # 0 \/ q[r].rs[j] # 0

IndicesOK(P, f, I) ==
    /\ \A r \in DRanks(P), j \in DDims(P) : I[r][j] \in 0..(f[j] - 1)
    /\ \A r, s \in DRanks(P) : r # s => I[r] # I[s]

(* A decision for grid f, or a refusal ({}). *)
DecideFor(P, q, f) ==
    LET I == IndicesOf(P, q, f)
        R == RankSizes(P, q, f, I)
        G == [r \in DRanks(P) |-> [j \in DDims(P) |-> OverallSize(P, q, I, R, r, j)]]
    IN IF ~IndicesOK(P, f, I) THEN {}
       ELSE IF /\ \A r \in DRanks(P), j \in DDims(P) :       \* given on all ranks in line or on none
                      q[r].rs[j] = 0 => \A s \in InLine(P, I, r, j) : q[s].rs[j] = 0
               /\ \A r \in DRanks(P), j \in DDims(P) : R[r][j] > 0
               /\ \A r, s \in DRanks(P), j \in DDims(P) : I[r][j] = I[s][j] => R[r][j] = R[s][j]
               /\ \A r \in DRanks(P), j \in DDims(P) :
                      /\ G[r][j] = G[1][j]
                      /\ SumOver(InLine(P, I, r, j), [s \in DRanks(P) |-> R[s][j]]) = G[r][j]
                      /\ f[j] > 1 => R[r][j] >= Least(P, j)
            THEN {[r \in DRanks(P) |-> [q[r] EXCEPT !.gs = G[r], !.rs = R[r], !.ri = I[r],
                                                    !.nr = [j \in DDims(P) |-> f[j]], !.st = TRUE]]}
            ELSE {}

(* All outcomes of a preparation that succeeds; and whether it may refuse.   *)
Prepared(P, q) ==
    IF Agree(P, q) /\ SizesGiven(P, q)
    THEN UNION {DecideFor(P, q, f) : f \in LegalGrids(P, q[1].nr)} ELSE {}
MayRefuse(P, q) ==
    \/ ~Agree(P, q) \/ ~SizesGiven(P, q)
    \/ LegalGrids(P, q[1].nr) = {}
    \/ \E f \in LegalGrids(P, q[1].nr) : DecideFor(P, q, f) = {}

-------------------------------- (* What the ranks see *)
(* First index of rank r's domain in dim j: the sizes of the ranks before it. *)
FirstIx(P, q, r, j) ==
    LET I == [s \in DRanks(P) |-> q[s].ri]
    IN SumOver({s \in InLine(P, I, r, j) : I[s][j] < I[r][j]}, [s \in DRanks(P) |-> q[s].rs[j]])
LastIx(P, q, r, j) == FirstIx(P, q, r, j) + q[r].rs[j] - 1

(* The theorem behind property C06: after a preparation the ranks' domains   *)
(* cover every point of the overall domain exactly once, in index order.     *)
Tiles(P, q) ==
    /\ \A r \in DRanks(P) : q[r].gs = q[1].gs /\ q[r].nr = q[1].nr
    /\ ProdTo(q[1].nr, P.d) = P.n
    /\ \A p \in {z \in [DDims(P) -> 0..(SumOver(DDims(P), q[1].gs))] :
                   \A j \in DDims(P) : z[j] < q[1].gs[j]} :
         Cardinality({r \in DRanks(P) : \A j \in DDims(P) :
             p[j] >= FirstIx(P, q, r, j) /\ p[j] <= LastIx(P, q, r, j)}) = 1
    /\ \A r, s \in DRanks(P), j \in DDims(P) :
         q[r].ri[j] < q[s].ri[j] => LastIx(P, q, r, j) < FirstIx(P, q, s, j)
    /\ \A r \in DRanks(P), j \in DDims(P) : q[r].ri[j] = 0 => FirstIx(P, q, r, j) = 0
=============================================================================
