---------------------------- MODULE YaskDepsGen -----------------------------
(* The families of program outlines that are replayed into the compiler, and *)
(* the evaluation of each as a state machine: an equation is evaluated once, *)
(* when everything it needs has been evaluated.                              *)
EXTENDS YaskDeps, SequencesExt, Json, IOUtils, TLC

T(k) == <<OFFS, k>>
X0 == <<T(0)>>
V(scr) == [scr |-> scr, st |-> ~scr, full |-> TRUE, md |-> 0]
VM(scr) == [scr |-> scr, st |-> ~scr, full |-> TRUE, md |-> 1]
(* What this step computes of variable v, at x + o.                          *)
New(vs, v, dir, o) == [v |-> v, s |-> IF vs[v].scr THEN <<>> ELSE T(dir), d |-> <<T(o)>>, m |-> <<>>]
NewM(vs, v, dir, m) == [v |-> v, s |-> IF vs[v].scr THEN <<>> ELSE T(dir), d |-> X0, m |-> <<m>>]
Old(v, dir) == [v |-> v, s |-> T(0), d |-> <<T(dir)>>, m |-> <<>>]
E(l, r, c, sc) == [lhs |-> l, rd |-> r, c |-> c, sc |-> sc]
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

-----------------------------------------------------------------------------
(* 1. Every dependency graph of three equations, each either scratch or not. *)
Graph(sc, rs, dir) ==
    LET vs == [v \in 1..3 |-> V(sc[v])]
    IN  [vars |-> vs,
         eqs |-> [q \in 1..3 |->
             E(New(vs, q, dir, 0),
               [i \in 1..Cardinality(rs[q]) |->
                   LET v == Sorted(rs[q])[i] IN New(vs, v, dir, IF (v + q) % 2 = 0 THEN 1 ELSE 0)],
               0, 0)]]
Graphs == {Graph(sc, rs, IF \E q \in 1..3 : 2 \in rs[q] THEN 1 ELSE -1) :
               sc \in [1..3 -> BOOLEAN], rs \in [1..3 -> SUBSET (1..3)]}

(* 2. Two or three equations for slices of the same variable, under every    *)
(* choice of conditions, with another equation that reads one of them.       *)
Confl(scr, k, ms, cs, ss, rd) ==
    LET vs == <<VM(scr), V(FALSE)>>
    IN  [vars |-> vs,
         eqs |-> [q \in 1..k |-> E(NewM(vs, 1, 1, <<CONST, ms[q]>>), <<>>, cs[q], ss[q])]
                 \o <<E(New(vs, 2, 1, 0), IF rd THEN <<NewM(vs, 1, 1, <<CONST, 0>>)>> ELSE <<>>, 0, 0)>>]
Confls ==
    {Confl(scr, 2, ms, cs, ss, rd) : scr \in BOOLEAN, ms \in [1..2 -> 0..1], cs \in [1..2 -> 0..2],
         ss \in [1..2 -> 0..2], rd \in BOOLEAN}
    \union
    {Confl(FALSE, 3, [q \in 1..3 |-> 0], cs, ss, TRUE) : cs \in [1..3 -> 0..2], ss \in [1..3 -> 0..1]}
(* Scratch equations have no step conditions in this family.                 *)
ConflsOK == {P \in Confls : \A q \in Eqs(P) : IsScr(P, q) => P.eqs[q].sc = 0}

(* 3. Every form of every argument on either side.                           *)
Args == {T(k) : k \in -2..2} \union {<<CONST, k>> : k \in {0, 2}} \union {<<BADA, k>> : k \in 1..6}
One(lhs, rd, vs) ==
    [vars |-> vs, eqs |-> <<E(lhs, rd, 0, 0)>>]
Forms ==
    LET vs == <<VM(FALSE), VM(FALSE)>>
        A(v, s, d, m) == [v |-> v, s |-> s, d |-> <<d>>, m |-> <<m>>]
        C0 == <<CONST, 0>>
    IN  {One(A(1, a, T(0), C0), <<A(2, T(0), T(0), C0)>>, vs) : a \in Args}
        \union {One(A(1, T(1), a, C0), <<A(2, T(0), T(0), C0)>>, vs) : a \in Args}
        \union {One(A(1, T(1), T(0), a), <<A(2, T(0), T(0), C0)>>, vs) : a \in Args}
        \union {One(A(1, T(dir), T(0), C0), <<A(2, a, T(0), C0)>>, vs) : a \in Args, dir \in {1, -1}}
        \union {One(A(1, T(1), T(0), C0), <<A(2, T(0), a, C0)>>, vs) : a \in Args}
        \union {One(A(1, T(1), T(0), C0), <<A(2, T(0), T(0), a)>>, vs) : a \in Args}
        \union {One(A(1, T(1), T(0), C0), <<A(1, a, b, C0)>>, vs) : a \in Args, b \in Args}
(* ... in the equation of a scratch variable, used or not.                   *)
ScrForms ==
    LET vs == <<V(TRUE), V(FALSE), V(FALSE)>>
        R(a, b) == [v |-> 3, s |-> a, d |-> <<b>>, m |-> <<>>]
        S(b) == [v |-> 1, s |-> <<>>, d |-> <<b>>, m |-> <<>>]
        Prog(l, r, use, dir, first) ==
            LET es == E(l, r, 0, 0)
                eo == E(New(vs, 2, dir, 0), IF use THEN <<S(T(1))>> ELSE <<>>, 0, 0)
            IN  [vars |-> vs, eqs |-> IF first THEN <<es, eo>> ELSE <<eo, es>>]
    IN  {Prog(S(T(0)), <<R(a, T(1))>>, use, dir, first) :
             a \in Args, use \in BOOLEAN, dir \in {1, -1}, first \in BOOLEAN}
        \union {Prog(S(a), <<R(T(0), T(0))>>, TRUE, 1, first) : a \in Args, first \in BOOLEAN}
(* ... and with dimensions missing or not allowed on the left-hand side.     *)
Dims ==
    {LET vs == <<[scr |-> scr, st |-> st, full |-> full, md |-> 0], V(FALSE)>>
         l == [v |-> 1, s |-> IF st THEN T(1) ELSE <<>>, d |-> IF full THEN X0 ELSE <<>>, m |-> <<>>]
         eo == E(New(vs, 2, 1, 0), IF rd THEN <<l>> ELSE <<>>, 0, 0)
     IN  [vars |-> vs, eqs |-> IF wr THEN <<E(l, <<>>, 0, 0), eo>> ELSE <<eo>>] :
         scr \in BOOLEAN, st \in BOOLEAN, full \in BOOLEAN, rd \in BOOLEAN, wr \in BOOLEAN}
(* A scratch variable that is read but has no equation says nothing about    *)
(* its contents, and one with the step dimension is an error of its own.     *)
DimsOK == {P \in Dims : P.vars[1].scr => Len(P.eqs) = 2}

(* 4. Directions of time.                                                    *)
Dirs ==
    {LET vs == [v \in 1..3 |-> V(v = k)]
     IN  [vars |-> vs,
          eqs |-> [q \in 1..3 |-> E(New(vs, q, ds[q], 0),
                                    IF q = 3 THEN <<New(vs, 1, ds[3], 1)>> ELSE <<>>, 0, 0)]] :
         ds \in [1..3 -> {1, -1}], k \in 0..3}

Family(n) == CASE n = 1 -> Graphs [] n = 2 -> ConflsOK [] n = 3 -> Forms \union ScrForms \union DimsOK \union Dirs
All == Graphs \union ConflsOK \union Forms \union ScrForms \union DimsOK \union Dirs

-----------------------------------------------------------------------------
VARIABLES P, done
vars == <<P, done>>
Init == P \in {Q \in All : Formed(Q)} /\ done = {}
Eval(q) == /\ q \notin done /\ Needs(P, q) \subseteq done
           /\ done' = done \union {q} /\ P' = P
Next == \E q \in Eqs(P) : Eval(q)
Spec == Init /\ [][Next]_vars
(* Legal programs never get stuck, whatever the order; the others never end. *)
LegalEnds == Acyclic(P) => \/ done = Eqs(P)
                           \/ \E q \in Eqs(P) \ done : Needs(P, q) \subseteq done
CyclicStuck == ~Acyclic(P) => done # Eqs(P)
(* Nothing that was read is written later.                                   *)
NoLateWrite == \A q \in done : Needs(P, q) \subseteq done

-----------------------------------------------------------------------------
GInit == P = <<>> /\ done = {}
GNext == FALSE /\ UNCHANGED vars
Emit == ndJsonSerialize(IOEnv.OUT, SetToSeq(Family(atoi(IOEnv.FAM))))
=============================================================================
