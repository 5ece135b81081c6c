------------------------------ MODULE YaskLife ------------------------------
(* The life cycle of solutions in one environment: settings, preparation,    *)
(* runs, hooks, statistics, ending, deleting.  The program is                *)
(*     u(t+d) = u(t-d) + v(t) + w ;  v(t+d) = u(t+d) - v(t)                  *)
(* over one domain dimension, and hosts write whole variables with one       *)
(* value, so that a variable's storage is one value per stored step.         *)
(*   P: [d: direction (1 or -1), au, av: stored steps of u and v, nr: ranks] *)
(* A state: [sol: each solution's record (or <<>> before it exists),         *)
(*           log: what hooks reported since the operation started]           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

UND == 2000000001          \* the value of memory that nobody has written
Kinds == {"bp", "ap", "br", "ar"}
Vars == {"u", "v", "w"}

Plus(a, b) == IF a = UND \/ b = UND THEN UND ELSE a + b
Minus(a, b) == IF a = UND \/ b = UND THEN UND ELSE a - b
Mod(a, m) == ((a % m) + m) % m

Slots(P, v) == IF v = "u" THEN P.au ELSE IF v = "v" THEN P.av ELSE 1
Fresh(P, v) == [i \in 0..(Slots(P, v) - 1) |-> UND]

NewSol(P) ==
    [pr |-> FALSE,                              \* prepared
     rs |-> 0, gs |-> 0,                        \* rank and overall sizes
     st |-> [v \in Vars |-> 0],                 \* size of v's storage, 0: none
     lo |-> [v \in Vars |-> 0],                 \* first valid step
     m  |-> [v \in Vars |-> Fresh(P, v)],       \* memory
     hk |-> [k \in Kinds |-> <<>>],             \* hooks: [tag, k, v, n]
     steps |-> 0, el |-> 0,                     \* statistics
     pl |-> TRUE]                               \* FALSE after a failed preparation: where a rank's part
                                                \* is, and so what its elements hold, is open

IsLive(s) == s # <<>>
InitLife(n) == [sol |-> [i \in 1..n |-> <<>>], log |-> <<>>]

(* ------------------------------ memory ---------------------------------- *)
Rd(P, s, v, t) == s.m[v][Mod(t, Slots(P, v))]
HasStep(v) == v # "w"
LastOf(P, s, v) == s.lo[v] + Slots(P, v) - 1
Wr(P, s, v, t, x) ==
    LET lo2 == IF t < s.lo[v] THEN t ELSE IF t > LastOf(P, s, v) THEN t - Slots(P, v) + 1 ELSE s.lo[v]
    IN [s EXCEPT !.m[v][Mod(t, Slots(P, v))] = x, !.lo[v] = lo2]
OneStep(P, s, t) ==
    LET nu == Plus(Plus(Rd(P, s, "u", t - P.d), Rd(P, s, "v", t)), Rd(P, s, "w", 0))
        nv == Minus(nu, Rd(P, s, "v", t))
    IN Wr(P, Wr(P, s, "u", t + P.d, nu), "v", t + P.d, nv)
NSteps(P, a, b) == P.d * (b - a) + 1
Steps(P, s, a, b) ==
    LET r == FoldLeft(LAMBDA z, i : OneStep(P, z, a + P.d * (i - 1)), s, [i \in 1..NSteps(P, a, b) |-> i])
    IN [r EXCEPT !.steps = @ + NSteps(P, a, b)]
SetAll(P, s, v, x) == IF s.st[v] = 0 THEN s ELSE [s EXCEPT !.m[v] = [i \in DOMAIN @ |-> x]]

(* ----------------------------- settings --------------------------------- *)
Mismatch(s) == \E v \in Vars : s.st[v] # 0 /\ s.st[v] # s.rs
(* A setter that cannot be obeyed is refused and changes nothing; one that   *)
(* is obeyed makes a new preparation necessary.                              *)
Setter(s, s2) == IF Mismatch(s2) THEN [s |-> s, ex |-> 1] ELSE [s |-> [s2 EXCEPT !.pr = FALSE], ex |-> 0]
Ready(s) == s.pr /\ \A v \in Vars : s.st[v] # 0

(* ------------------------------- hooks ---------------------------------- *)
(* What a hook does, given the step range it is told.                        *)
RECURSIVE RunIt(_, _, _, _, _)
Act(P, q, i, h) ==
    LET s == q.sol[i]
    IN CASE h.k = "setall" -> [q EXCEPT !.sol[i] = SetAll(P, s, h.v, h.n)]
         [] h.k = "bsize" -> [q EXCEPT !.sol[i] = Setter(s, s).s]
         [] h.k = "run" -> RunIt(P, q, i, h.n, h.n).q
         [] OTHER -> q
ActRes(P, s, h) ==      \* what it reports: a value, or UND: nothing to compare
    CASE h.k = "get" /\ s.pl /\ s.st[h.v] # 0 -> Rd(P, s, h.v, s.lo[h.v])
      [] OTHER -> UND
ActEx(P, q, i, h) ==    \* whether what it does is refused
    CASE h.k = "get" -> IF q.sol[i].st[h.v] = 0 THEN 1 ELSE IF q.sol[i].pl THEN 0 ELSE 2
      [] h.k = "bsize" -> Setter(q.sol[i], q.sol[i]).ex
      [] h.k = "run" -> RunIt(P, q, i, h.n, h.n).ex
      [] OTHER -> 0
CallHooks(P, q, i, kind, a, b) ==
    FoldLeft(LAMBDA z, h : Act(P, [z EXCEPT !.log = Append(@, [tag |-> h.tag, s |-> i, a |-> a, b |-> b,
                                                               r |-> ActRes(P, z.sol[i], h), x |-> ActEx(P, z, i, h)])], i, h),
             q, q.sol[i].hk[kind])

(* A run that is not refused, with its hooks. *)
RunIt(P, q, i, a, b) ==
    LET q1 == CallHooks(P, q, i, "br", a, b)
    IN IF ~Ready(q1.sol[i]) THEN [q |-> q1, ex |-> 1]
       ELSE [q |-> CallHooks(P, [q1 EXCEPT !.sol[i] = Steps(P, @, a, b)], i, "ar", a, b), ex |-> 0]

(* ---------------------------- operations -------------------------------- *)
Out(q, ex) == [q |-> q, ex |-> ex]
PrepSize(P, s) == IF s.gs = 0 THEN s.rs * P.nr ELSE IF s.rs = 0 \/ s.rs * P.nr = s.gs THEN s.gs ELSE 0
PrepOK(P, s) == LET z == PrepSize(P, s)
                IN z # 0 /\ \A v \in Vars : s.st[v] \in {0, z \div P.nr}
PrepDone(P, s) ==
    LET z == PrepSize(P, s)
    IN [s EXCEPT !.pr = TRUE, !.pl = TRUE, !.rs = z \div P.nr, !.gs = z, !.steps = 0, !.el = z,
                 !.m = [v \in Vars |-> IF s.st[v] = 0 THEN Fresh(P, v) ELSE @[v]],
                 !.st = [v \in Vars |-> z \div P.nr]]
Prep(P, q, i) ==
    LET q1 == CallHooks(P, q, i, "bp", 0, 0)
        s == q1.sol[i]
        z == PrepSize(P, s)
    IN IF PrepOK(P, s)
       THEN {Out(CallHooks(P, [q1 EXCEPT !.sol[i] = PrepDone(P, s)], i, "ap", 0, 0), 0)}
       ELSE \* what becomes of sizes to be derived, and of the statistics, is open
            {Out([q1 EXCEPT !.sol[i] = [s EXCEPT !.pr = FALSE, !.pl = FALSE, !.rs = zz[1], !.gs = zz[2], !.steps = k]], 1) :
               zz \in {<<s.rs, s.gs>>} \cup (IF z # 0 THEN {<<z \div P.nr, z>>} ELSE {}), k \in {0, s.steps}}
Run(P, q, i, a, b) ==
    LET r == RunIt(P, q, i, a, b)
    IN IF r.ex = 0 THEN {r} ELSE {r} \cup (IF Ready(q.sol[i]) THEN {} ELSE {Out(q, 1)})
End(P, s) == [s EXCEPT !.pr = FALSE, !.st = [v \in Vars |-> 0], !.m = [v \in Vars |-> Fresh(P, v)]]
Rel(P, s, v) == [s EXCEPT !.st[v] = 0, !.m[v] = Fresh(P, v)]

Upd(q, i, s) == [q EXCEPT !.sol[i] = s]
(* All outcomes of operation e: [q: the state after it, ex: whether refused] *)
Do(P, q0, e) ==
    LET q == [q0 EXCEPT !.log = <<>>]
        s == q.sol[e.s]
    IN CASE e.op = "new" -> {Out(Upd(q, e.s, NewSol(P)), 0)}
         [] e.op = "from" -> {Out(Upd(q, e.s, [NewSol(P) EXCEPT !.rs = q.sol[e.o].rs, !.gs = q.sol[e.o].gs]), 0)}
         [] e.op = "del" -> {Out(Upd(q, e.s, <<>>), 0)}
         [] e.op = "rsize" -> LET r == Setter(s, [s EXCEPT !.rs = e.n]) IN {Out(Upd(q, e.s, r.s), r.ex)}
         [] e.op = "osize" -> LET r == Setter(s, [s EXCEPT !.gs = e.n]) IN {Out(Upd(q, e.s, r.s), r.ex)}
         [] e.op = "optl" -> {Out(Upd(q, e.s, [s EXCEPT !.rs = e.n]), 0)}
         [] e.op = "optg" -> {Out(Upd(q, e.s, [s EXCEPT !.gs = e.n]), 0)}
         [] e.op = "bsize" -> LET r == Setter(s, s) IN {Out(Upd(q, e.s, r.s), r.ex)}
         [] e.op = "hook" -> {Out(Upd(q, e.s, [s EXCEPT !.hk[e.kind] = Append(@, [tag |-> e.tag, k |-> e.k, v |-> e.v, n |-> e.n])]), 0)}
         [] e.op = "prep" -> Prep(P, q, e.s)
         [] e.op = "run" -> Run(P, q, e.s, e.a, e.b)
         [] e.op = "end" -> {Out(Upd(q, e.s, End(P, s)), 0)}
         [] e.op = "rel" -> {Out(Upd(q, e.s, Rel(P, s, e.v)), 0)}
         [] e.op = "setall" -> {Out(Upd(q, e.s, SetAll(P, s, e.v, e.n)), 0)}
         [] e.op = "get" -> IF s.st[e.v] = 0 THEN {Out(q, 1)} ELSE {Out(q, 0)} \cup (IF s.pl THEN {} ELSE {Out(q, 1)})
         [] e.op \in {"stats", "clrstats"} -> {Out(Upd(q, e.s, [s EXCEPT !.steps = 0]), 0)}
         [] OTHER -> {Out(q, 0)}       \* win, stor, geom, tune, xchg
=============================================================================
