----------------------------- MODULE YaskThreads -----------------------------
(* Parallel regions. A region is a sequence of phases (the code between two  *)
(* barriers); a phase is a set of tasks: each thread's own part of it, and   *)
(* each chunk of iterations of a dynamic loop, which any thread may get. The *)
(* tasks of a phase run in any order and interleave between any two accesses *)
(* to memory, which covers every assignment of chunks to threads (a thread   *)
(* runs its chunks one after the other, which is one of the interleavings).  *)
(* A region inside a task belongs, seen from outside, to that task.          *)
(*                                                                           *)
(* What a task may do in a phase is judged by who touches a cell:            *)
(* readers r and writers w are sets of tasks. Atomic additions (k = "a") are *)
(* neither; they may meet each other but no plain access.                    *)
EXTENDS Integers, Sequences, FiniteSets

CellOK(r, w) == w = {} \/ \E t \in w : w = {t} /\ r \subseteq {t}

(* A phase as recorded: the distinct <<readers, writers>> of its cells.      *)
PhaseOK(cells) == \A c \in cells : CellOK(c[1], c[2])

(* The same, and atomics, for a phase given as the programs of its tasks:    *)
(* sequences of accesses [k: "r" | "w" | "a", c: cell].                      *)
Users(ph, k, c) == {t \in DOMAIN ph : \E i \in DOMAIN ph[t] : ph[t][i].k = k /\ ph[t][i].c = c}
RaceFree(ph, Cells) ==
    \A c \in Cells : LET r == Users(ph, "r", c) w == Users(ph, "w", c) a == Users(ph, "a", c) IN
        /\ CellOK(r, w)
        /\ a # {} => \E t \in a : r \cup w \subseteq (IF a = {t} THEN {t} ELSE {})

(* Meaning of an access: reads fold the cell into what the task knows, a     *)
(* write stores a value that depends on all the task knows and on its place. *)
Know(reg, v) == (3 * reg + v + 1) % 101
Value(reg, t, i) == (7 * reg + 5 * t + i) % 101
Step(acc, st, reg, t, i) ==
    CASE acc.k = "r" -> <<st, Know(reg, st[acc.c])>>
      [] acc.k = "w" -> <<[st EXCEPT ![acc.c] = Value(reg, t, i)], reg>>
      [] acc.k = "a" -> <<[st EXCEPT ![acc.c] = (@ + 1 + reg) % 101], reg>>

(* One after the other.                                                      *)
RECURSIVE SeqFrom(_, _, _, _, _)
SeqFrom(ph, t, i, st, reg) ==
    IF t > Len(ph) THEN st
    ELSE IF i > Len(ph[t]) THEN SeqFrom(ph, t + 1, 1, st, 0)
    ELSE LET n == Step(ph[t][i], st, reg, t, i) IN SeqFrom(ph, t, i + 1, n[1], n[2])

(* Concurrent additions from the user's threads: every one counts. The sums  *)
(* are of small integers, exact in the element type.                         *)
AddsOK(e) == e.after = e.before + e.val * e.adds /\ e.n = e.adds
=============================================================================
