---------------------------- MODULE YaskThreadsMC ----------------------------
(* Every phase of NT tasks with at most LEN accesses to NC cells, in every   *)
(* interleaving: race-free phases have one outcome, that of running the      *)
(* tasks one after the other; and every phase that is not race-free because  *)
(* of a write has programs of the same accesses whose outcome does depend on *)
(* the schedule (Racy is reachable), so that the condition is not vacuous.   *)
EXTENDS YaskThreads, TLC
CONSTANTS NT, LEN, NC, Kinds
Cells == 1..NC
Acc == [k : Kinds, c : Cells]
Progs == UNION {[1..n -> Acc] : n \in 0..LEN}

VARIABLES ph, free, want, st, reg, pc
vars == <<ph, free, want, st, reg, pc>>
Init == /\ ph \in [1..NT -> Progs]
        /\ \E i \in 1..NT : Len(ph[i]) > 0
        /\ free = RaceFree(ph, Cells)
        /\ st = [c \in Cells |-> 0]
        /\ want = SeqFrom(ph, 1, 1, st, 0)
        /\ reg = [t \in 1..NT |-> 0]
        /\ pc = [t \in 1..NT |-> 1]
Run(t) == /\ pc[t] <= Len(ph[t])
          /\ LET n == Step(ph[t][pc[t]], st, reg[t], t, pc[t]) IN
                st' = n[1] /\ reg' = [reg EXCEPT ![t] = n[2]]
          /\ pc' = [pc EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<ph, free, want>>
Next == \E t \in 1..NT : Run(t)
Spec == Init /\ [][Next]_vars
Done == \A t \in 1..NT : pc[t] > Len(ph[t])
Deterministic == Done /\ free => st = want
(* For the sanity run only: some phase with a race has another outcome.      *)
NoRaceMatters == Done => st = want
=============================================================================
