---------------------------- MODULE YaskDecompMC ----------------------------
(* All histories of a few setter calls followed by a preparation, for small  *)
(* configurations: a preparation that succeeds always tiles the domain, and  *)
(* keeps every setting that was given.                                       *)
EXTENDS YaskDecomp

CONSTANTS MCN, MCD, MaxSets
P0 == [n |-> MCN, d |-> MCD, fold |-> [j \in 1..MCD |-> IF j = 1 THEN 2 ELSE 1],
       hal |-> [j \in 1..MCD |-> 1], wf |-> 0, stages |-> 1]
VARIABLES q, k, done, before
vars == <<q, k, done, before>>
Vals == [gs |-> {0, 5, 6}, rs |-> {0, 2, 3}, nr |-> 0..MCN, ri |-> {0, 1}]
Init == q = InitDecomp(P0) /\ k = 0 /\ done = FALSE /\ before = q
SetOne == /\ k < MaxSets /\ ~done
          /\ \E W \in {DRanks(P0)} \cup {{r} : r \in DRanks(P0)}, f \in {"gs", "rs", "nr", "ri"}, i \in DDims(P0) :
               \E v \in Vals[f] :
                 /\ f \in {"gs", "nr"} => W = DRanks(P0)
                 /\ q' = [r \in DRanks(P0) |-> IF r \in W THEN SetField(P0, q[r], f, i, <<v>>) ELSE q[r]]
          /\ k' = k + 1 /\ done' = FALSE /\ before' = before
Prep == ~done /\ q' \in Prepared(P0, q) /\ k' = k /\ done' = TRUE /\ before' = q
Next == SetOne \/ Prep
Spec == Init /\ [][Next]_vars
View == <<q, done, IF done THEN before ELSE q>>
Inv == done => Tiles(P0, q)
Kept == done => \A r \in DRanks(P0), j \in DDims(P0) :
    /\ before[r].gs[j] # 0 => q[r].gs[j] = before[r].gs[j]
    /\ before[r].rs[j] # 0 => q[r].rs[j] = before[r].rs[j]
    /\ before[r].nr[j] # 0 => q[r].nr[j] = before[r].nr[j]
    /\ ~before[r].loc => q[r].ri[j] = before[r].ri[j]
(* Either a preparation may succeed or it may refuse. *)
Decides == ~done => Prepared(P0, q) # {} \/ MayRefuse(P0, q)
=============================================================================
