------------------------------ MODULE YaskTunerMC ----------------------------
(* The search for one kind of tile, for every outcome of every measurement:  *)
(* from a center, try the untried sizes around it at some distance; move the *)
(* center to the best size while a better one is found; halve the distance;  *)
(* end. Every measurement may turn out better or worse than the best so far, *)
(* but the first one always counts (else there would be no best size).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N1, N2,      \* numbers of vectors per dimension
          R            \* first distance
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Size == (1..N1) \X (1..N2)
VARIABLES c, best, rad, i, better, seen, ph, cur
vars == <<c, best, rad, i, better, seen, ph, cur>>

Shift(s, k, n) == Min2(Max2(CASE k = 0 -> s - rad [] k = 1 -> s [] k = 2 -> (IF s < rad THEN rad ELSE s + rad), 1), n)
Neigh == <<Shift(c[1], i % 3, N1), Shift(c[2], i \div 3, N2)>>

(* ph: "try" (cur is being measured), "search" or "done"                     *)
Init == /\ c \in Size /\ best = <<>> /\ rad = R /\ i = 0 /\ better = FALSE /\ seen = {}
        /\ ph = "try" /\ cur = c
Measure == /\ ph = "try"
           /\ seen' = seen \cup {cur}
           /\ \E b \in IF best = <<>> THEN {TRUE} ELSE BOOLEAN :
                 best' = (IF b THEN cur ELSE best) /\ better' = (better \/ b)
           /\ ph' = "search" /\ UNCHANGED <<c, rad, i, cur>>
Search == /\ ph = "search" /\ i < 9
          /\ i' = i + 1
          /\ IF Neigh \in seen THEN UNCHANGED <<ph, cur>> ELSE ph' = "try" /\ cur' = Neigh
          /\ UNCHANGED <<c, best, rad, better, seen>>
Around == /\ ph = "search" /\ i = 9
          /\ i' = 0 /\ c' = best /\ better' = FALSE
          /\ rad' = (IF better THEN rad ELSE rad \div 2)
          /\ ph' = (IF rad' >= 1 THEN "search" ELSE "done")
          /\ UNCHANGED <<best, seen, cur>>
Next == Measure \/ Search \/ Around
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == c \in Size /\ cur \in Size /\ ph \in {"try", "search", "done"}
HasBest == ph # "try" => best \in seen
(* No size is tried twice, so there are at most as many trials as sizes.     *)
Fresh == ph = "try" => cur \notin seen
Ends == <>(ph = "done")
=============================================================================
