--------------------------- MODULE YaskCmdLineMC ----------------------------
(* Theorems about YaskCmdLine over small domains, with histories of calls as *)
(* a state machine.                                                          *)
EXTENDS YaskCmdLine, SequencesExt, Json, IOUtils, TLC

(* Letters: a, space, both quotes.                                           *)
Letters == {97, 32, Apos, Quot}
Str(n) == UNION {[1..k -> Letters] : k \in 0..n}
Args2 == UNION {[1..k -> Str(2)] : k \in 0..2}
(* Any arguments survive being joined in one string.                         *)
RoundTrip == \A as \in Args2 : Tokens(Join(as, 1)) = [err |-> FALSE, args |-> as]

(* Options -b (sets settings 1 and 2), -bx (sets 1) and -[no-]v (sets 3).    *)
b == 98
x == 120
v == 118
Opt(n, k, i) == [name |-> n, kind |-> k, vars |-> i, allowed |-> <<>>, keys |-> <<>>]
T == <<Opt(<<b>>, "idx", <<1, 2>>), Opt(<<b, x>>, "idx", <<1>>), Opt(<<v>>, "bool", <<3>>)>>
Words == {<<Minus, b>>, <<Minus, b, x>>, <<Minus, v>>, NoPfx \o <<v>>, <<55>>, <<Minus, 56>>, <<b>>}
Lines == UNION {[1..k -> Words] : k \in 0..4}
V0 == <<<<0>>, <<0>>, <<0>>>>

VARIABLES args, vs, rest, err
vars == <<args, vs, rest, err>>
Init == args \in Lines /\ vs = V0 /\ rest = <<>> /\ err = FALSE
(* Consumes one option with its argument, or one word.                       *)
Take(k) ==
    /\ k <= Len(args) /\ ~err
    /\ LET r == Apply(T, SubSeq(args, 1, k), vs)
       IN  /\ ~r.err
           /\ vs' = r.vs /\ rest' = rest \o r.rest /\ err' = FALSE
           /\ args' = SubSeq(args, k + 1, Len(args))
Next == \E k \in 1..4 : Take(k)
Spec == Init /\ [][Next]_vars
(* Wherever a line is cut between options, the outcome is the same.          *)
Compose ==
    \A as \in Lines :
        LET r == Apply(T, as, V0)
        IN  \A k \in 1..Len(as) :
                LET p == Apply(T, SubSeq(as, 1, k), V0)
                    s == Apply(T, SubSeq(as, k + 1, Len(as)), p.vs)
                IN  (~p.err /\ ~s.err) => (~r.err /\ r.vs = s.vs /\ r.rest = p.rest \o s.rest)
(* Nothing is lost: what is left over and what was used add up.              *)
Kept == \A as \in Lines : LET r == Apply(T, as, V0) IN ~r.err => Len(r.rest) <= Len(as)
ASSUME RoundTrip
ASSUME Compose
ASSUME Kept

(* Every line is also given to the real parser.                              *)
Emit == TLCGet("distinct") >= 0 /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Lines \union {<<>>}))
=============================================================================
