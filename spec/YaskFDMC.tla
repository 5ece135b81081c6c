------------------------------ MODULE YaskFDMC ------------------------------
(* Theorems about YaskFD, for every sequence of a few small points: sample   *)
(* points arrive one by one, and the coefficients of all orders are updated  *)
(* from those without the new point. After each, they are the ones YaskFD    *)
(* gives, and they are exact for polynomials.                                *)
EXTENDS YaskFD, FiniteSets, SequencesExt, Json, IOUtils, TLC

Pts == -2..3
Evals == -1..2
MaxM == 5
MaxN == 4
p == 101
Inv == TLCEval([a \in 1..(p - 1) |-> CHOOSE b \in 1..(p - 1) : (a * b) % p = 1])

VARIABLES e, x, w
vars == <<e, x, w>>
Init == /\ e \in Evals
        /\ \E a \in Pts : x = <<a>>
        /\ w = [m \in 0..MaxM |-> <<IF m = 0 THEN 1 ELSE 0>>]
Add(a) ==
    LET n == Len(x)
        c1 == Den(x, n, n, p)
        c2 == Den(Append(x, a), n + 1, n + 1, p)
        old(m, v) == (((((a - e) % p) * w[m][v]) % p) - (IF m > 0 THEN (m * w[m - 1][v]) % p ELSE 0)) % p
        last(m) == ((IF m > 0 THEN (m * w[m - 1][n]) % p ELSE 0) - ((((x[n] - e) % p) * w[m][n]) % p)) % p
    IN  /\ x' = Append(x, a)
        /\ w' = [m \in 0..MaxM |-> [v \in 1..(n + 1) |->
                    IF v <= n THEN (old(m, v) * Inv[(a - x[v]) % p]) % p
                    ELSE (((c1 * Inv[c2]) % p) * last(m)) % p]]
        /\ e' = e
Next == Len(x) < MaxN /\ \E a \in Pts \ Range(x) : Add(a)
Spec == Init /\ [][Next]_vars

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE (a * Pow(a, k - 1)) % p
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE (f[n] + Sum(f, n - 1)) % p
Moment(m, k) == Sum([i \in 1..Len(x) |-> (w[m][i] * Pow((x[i] - e) % p, k)) % p], Len(x))

(* Exact for 1, t-e, (t-e)^2, .., and hence for every polynomial.            *)
Exact == \A m \in 0..MaxM, k \in 0..(Len(x) - 1) : Moment(m, k) = IF k = m THEN Fact(m) % p ELSE 0
Closed == \A m \in 0..MaxM, i \in 1..Len(x) : Num(x, e, m, i, p) = (w[m][i] * Den(x, i, Len(x), p)) % p
(* Nothing can be said about derivatives of too high an order.               *)
Zero == \A m \in 0..MaxM : m >= Len(x) => \A i \in 1..Len(x) : w[m][i] = 0
(* The same points in any order have the same coefficients.                  *)
Swap(s) == [i \in 1..Len(s) |-> IF i = 1 THEN s[Len(s)] ELSE IF i = Len(s) THEN s[1] ELSE s[i]]
AnyOrder == \A m \in 0..MaxM : LET s == Swap(x) n == Len(x) IN
                /\ Num(s, e, m, 1, p) = Num(x, e, m, n, p)
                /\ Num(s, e, m, n, p) = Num(x, e, m, 1, p)
(* The mirror image has the coefficients with the sign of the derivative.    *)
Mirror == \A m \in 0..MaxM, i \in 1..Len(x) :
             LET s == [j \in 1..Len(x) |-> -x[j]]
                 k == Num(s, -e, m, i, p) * (IF (Len(x) - 1 + m) % 2 = 0 THEN 1 ELSE -1)
             IN  (k - Num(x, e, m, i, p)) % p = 0

(* All sequences of points are also given to the real code.                  *)
Seqs == UNION {{s \in [1..n -> Pts] : Cardinality(Range(s)) = n} : n \in 2..MaxN}
Emit == TLCGet("distinct") >= 0 /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Seqs))
=============================================================================
