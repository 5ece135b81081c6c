------------------------------ MODULE YaskDeps ------------------------------
(* Which stencil programs are legal, and in which orders the equations of a  *)
(* legal one may be evaluated within a step.  A program in outline is        *)
(*   vars: a sequence of [scr, st: has the step dim, full: has every domain  *)
(*         dim]                                                              *)
(*   eqs:  a sequence of [lhs: access, rd: sequence of accesses,             *)
(*         c, sc: identity of its domain and step condition, 0 if none]      *)
(* and an access is [v, s: step argument (<<>> if none), d: domain           *)
(* arguments, m: misc arguments].  An argument is a pair <<form, k>>:        *)
EXTENDS Integers, Sequences, FiniteSets

OFFS  == 0   \* index of that dimension plus k
CONST == 1   \* the integer k
BADA  == 2   \* anything else

Abs(x) == IF x < 0 THEN -x ELSE x
Eqs(P) == 1..Len(P.eqs)
VarOf(P, a) == P.vars[a.v]
IsScr(P, q) == VarOf(P, P.eqs[q].lhs).scr

(* The direction of time is that of the first equation that is not scratch.  *)
Firsts(P) == {q \in Eqs(P) : ~IsScr(P, q)}
Dir(P) == IF Firsts(P) = {} THEN 1
          ELSE LET f == CHOOSE q \in Firsts(P) : \A r \in Firsts(P) : q <= r
                   s == P.eqs[f].lhs.s
               IN  IF s = <<>> THEN 1 ELSE IF s[2] < 0 THEN -1 ELSE 1

-----------------------------------------------------------------------------
(* Well-formed accesses.                                                     *)
ArgsOK(a) ==
    /\ a.s # <<>> => a.s[1] = OFFS
    /\ \A i \in 1..Len(a.d) : a.d[i][1] = OFFS
    /\ \A i \in 1..Len(a.m) : a.m[i][1] = CONST
LhsOK(P, q) ==
    LET a == P.eqs[q].lhs
    IN  /\ ArgsOK(a)
        /\ VarOf(P, a).full
        /\ VarOf(P, a).st = ~VarOf(P, a).scr
        /\ \A i \in 1..Len(a.d) : a.d[i][2] = 0
        /\ ~VarOf(P, a).scr => a.s[2] = Dir(P)
(* A program may read what earlier steps left and what this step computes.   *)
RdOK(P, a) ==
    /\ ArgsOK(a)
    /\ a.s # <<>> => a.s[2] * Dir(P) <= 1
Formed(P) ==
    /\ Len(P.eqs) > 0
    /\ \E v \in 1..Len(P.vars) : P.vars[v].st
    /\ \A v \in 1..Len(P.vars) : P.vars[v].scr => ~P.vars[v].st
    /\ \A q \in Eqs(P) : LhsOK(P, q) /\ \A i \in 1..Len(P.eqs[q].rd) : RdOK(P, P.eqs[q].rd[i])

-----------------------------------------------------------------------------
(* Contradictory writes: two equations for the same slice are only allowed   *)
(* under different conditions.                                               *)
Slice(a) == <<a.v, IF a.s = <<>> THEN 0 ELSE a.s[2], [i \in 1..Len(a.m) |-> a.m[i][2]]>>
Target(P, q) == Slice(P.eqs[q].lhs)
Free(e) == e.c = 0 /\ e.sc = 0
Contradict(P, q, r) ==
    /\ q # r
    /\ Target(P, q) = Target(P, r)
    /\ \/ P.eqs[q].c = P.eqs[r].c /\ P.eqs[q].sc = P.eqs[r].sc
       \/ Free(P.eqs[q])
       \/ Free(P.eqs[r])

-----------------------------------------------------------------------------
(* Dependencies.  Equation q needs r if it reads the slice r writes; scratch *)
(* slices only exist within the step, so reading one always needs its        *)
(* equations.                                                                *)
Reads(P, q) == {Slice(P.eqs[q].rd[i]) : i \in 1..Len(P.eqs[q].rd)}
Needs(P, q) == {r \in Eqs(P) : Target(P, r) \in Reads(P, q)}
(* Evaluating one equation whose needs are met, as long as there is one.     *)
RECURSIVE Evaluable(_, _, _)
Evaluable(P, needs, done) ==
    LET more == {q \in Eqs(P) \ done : needs[q] \subseteq done}
    IN  IF more = {} THEN done ELSE Evaluable(P, needs, done \union more)
Acyclic(P) == Evaluable(P, [q \in Eqs(P) |-> Needs(P, q)], {}) = Eqs(P)

(* The equations of one slice are alternatives: a reader needs all of them,  *)
(* and a slice may not depend on itself through any of them.                 *)
Legal(P) ==
    /\ Formed(P)
    /\ \A q \in Eqs(P) : \A r \in Eqs(P) : ~Contradict(P, q, r)
    /\ Acyclic(P)
=============================================================================
