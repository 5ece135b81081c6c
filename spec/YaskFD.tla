------------------------------- MODULE YaskFD -------------------------------
(* Finite-difference coefficients. For sample points x_1..x_n, all different,*)
(* an evaluation point e and an order m of the derivative, the coefficients  *)
(* c_1..c_n are those with                                                   *)
(*      f^(m)(e) = c_1 f(x_1) + .. + c_n f(x_n)                              *)
(* for every polynomial f of degree less than n; there is just one such      *)
(* choice.  c_i times the product of x_i - x_j over j # i is an integer when *)
(* the points are, so all of this is arithmetic modulo a prime p.            *)
EXTENDS Integers, Sequences

RECURSIVE Fact(_)
Fact(m) == IF m <= 1 THEN 1 ELSE m * Fact(m - 1)

(* The product of x_i - x_j.                                                 *)
RECURSIVE Den(_, _, _, _)
Den(x, i, j, p) == IF j = 0 THEN 1
                   ELSE IF j = i THEN Den(x, i, j - 1, p)
                   ELSE (((x[i] - x[j]) % p) * Den(x, i, j - 1, p)) % p
(* The coefficient of t^k in the product of t - (x_j - e) over j <= n, j # i.*)
RECURSIVE Row(_, _, _, _, _)
Row(x, e, i, n, p) ==
    IF n = 0 THEN [k \in 0..Len(x) |-> IF k = 0 THEN 1 ELSE 0]
    ELSE IF n = i THEN Row(x, e, i, n - 1, p)
    ELSE LET r == Row(x, e, i, n - 1, p)
             y == (x[n] - e) % p
         IN  [k \in 0..Len(x) |-> ((IF k > 0 THEN r[k - 1] ELSE 0) - ((y * r[k]) % p)) % p]
(* c_i times Den: m! times the coefficient of t^m.                           *)
Num(x, e, m, i, p) == IF m >= Len(x) THEN 0
                      ELSE ((Fact(m) % p) * Row(x, e, i, Len(x), p)[m]) % p

(* The standard forms: points at distance 1, evaluated at 0.                 *)
Center(r) == [i \in 1..(2 * r + 1) |-> i - r - 1]
Forward(r) == [i \in 1..(r + 1) |-> i - 1]
Backward(r) == [i \in 1..(r + 1) |-> i - r - 1]

(* Arguments that are refused.                                               *)
Legal(f, m, r, n) == m >= 1 /\ (IF f = "A" THEN n >= 2 ELSE r >= 1)
=============================================================================
