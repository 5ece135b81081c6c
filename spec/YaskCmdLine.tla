---------------------------- MODULE YaskCmdLine -----------------------------
(* Command-line options of solutions, for the kernel and for the compiler.   *)
(* Strings are sequences of character codes.  A table of options T is a      *)
(* sequence of [name, kind, vars: identities of the settings it sets,        *)
(* allowed: for lists, the strings allowed (any if empty), keys: for folds]. *)
(* A value is a sequence of integers, whose form depends on the kind.        *)
EXTENDS Integers, Sequences, FiniteSets

Space == {9, 10, 11, 12, 13, 32}
Apos == 39
Quot == 34
Minus == 45
IsDigit(c) == c >= 48 /\ c <= 57

-----------------------------------------------------------------------------
(* A string is split into arguments at white space outside of quotes.        *)
Chr(z, c) ==
    IF z.q # 0 THEN IF c = z.q THEN [z EXCEPT !.q = 0, !.ok = TRUE]
                               ELSE [z EXCEPT !.cur = Append(@, c)]
    ELSE IF c \in Space THEN [z EXCEPT !.cur = <<>>, !.ok = FALSE, !.args = IF z.ok THEN Append(@, z.cur) ELSE @]
    ELSE IF c \in {Apos, Quot} THEN [z EXCEPT !.q = c]
    ELSE [z EXCEPT !.cur = Append(@, c), !.ok = TRUE]
RECURSIVE Chrs(_, _, _)
Chrs(s, i, z) == IF i > Len(s) THEN z ELSE Chrs(s, i + 1, Chr(z, s[i]))
Tokens(s) ==
    LET z == Chrs(s, 1, [args |-> <<>>, cur |-> <<>>, ok |-> FALSE, q |-> 0])
    IN  [err |-> z.q # 0, args |-> IF z.ok THEN Append(z.args, z.cur) ELSE z.args]

(* Any arguments can be given in one string.                                 *)
RECURSIVE QuoteFrom(_, _)
QuoteFrom(a, i) ==
    IF i > Len(a) THEN <<>>
    ELSE (IF a[i] = Apos THEN <<Quot, a[i], Quot>> ELSE <<Apos, a[i], Apos>>) \o QuoteFrom(a, i + 1)
Quoted(a) == IF a = <<>> THEN <<Apos, Apos>> ELSE QuoteFrom(a, 1)
RECURSIVE Join(_, _)
Join(as, i) == IF i > Len(as) THEN <<>>
               ELSE Quoted(as[i]) \o (IF i < Len(as) THEN <<32>> ELSE <<>>) \o Join(as, i + 1)

-----------------------------------------------------------------------------
(* Integers: [ok, v: <<sign>> \o decimal digits], of any size.               *)
RECURSIVE Strip0(_)
Strip0(d) == IF d # <<>> /\ d[1] = 0 THEN Strip0(Tail(d)) ELSE d
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE Append(Digits(n \div 10), n % 10)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
RECURSIVE InBase(_, _, _, _)
InBase(s, i, b, n) == IF i > Len(s) THEN n ELSE InBase(s, i + 1, b, n * b + HexVal(s[i]))
AllBelow(s, b) == s # <<>> /\ \A i \in 1..Len(s) : HexVal(s[i]) < b
Unsigned(s) ==
    IF Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {120, 88}
    THEN LET h == SubSeq(s, 3, Len(s)) IN [ok |-> AllBelow(h, 16), d |-> IF AllBelow(h, 16) THEN Digits(InBase(h, 1, 16, 0)) ELSE <<>>]
    ELSE IF Len(s) > 1 /\ s[1] = 48
    THEN [ok |-> AllBelow(s, 8), d |-> IF AllBelow(s, 8) THEN Digits(InBase(s, 1, 8, 0)) ELSE <<>>]
    ELSE [ok |-> AllBelow(s, 10), d |-> IF AllBelow(s, 10) THEN Strip0([i \in 1..Len(s) |-> s[i] - 48]) ELSE <<>>]
HasSign(s) == s # <<>> /\ s[1] \in {Minus, 43}
Neg(s) == s # <<>> /\ s[1] = Minus
Body(s) == IF HasSign(s) THEN Tail(s) ELSE s
(* Digit sequences without leading zeros, compared as numbers.               *)
RECURSIVE LessD(_, _)
LessD(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessD(Tail(a), Tail(b))
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessD(a, b)
IntMax == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
IntMaxNeg == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>
LongMax == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
LongMaxNeg == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>
(* The extreme 64-bit values themselves are not valid either.                *)
IntOK(kind, neg, d) ==
    CASE kind = "int" -> ~Less(IF neg THEN IntMaxNeg ELSE IntMax, d)
      [] OTHER -> Less(d, IF neg THEN LongMaxNeg ELSE LongMax)
IntVal(kind, s) ==
    LET u == Unsigned(Body(s)) neg == Neg(s) /\ u.d # <<>>
    IN  [ok |-> u.ok /\ IntOK(kind, neg, u.d), v |-> <<IF neg THEN 1 ELSE 0>> \o u.d]

(* Decimal numbers: v is <<sign, exponent>> \o digits without zeros at       *)
(* either end, meaning 0.digits * 10^exponent.                               *)
RECURSIVE StripEnd(_)
StripEnd(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripEnd(SubSeq(d, 1, Len(d) - 1)) ELSE d
Find(s, cs) == LET p == {i \in 1..Len(s) : s[i] \in cs} IN IF p = {} THEN Len(s) + 1 ELSE CHOOSE i \in p : \A j \in p : i <= j
DblVal(s) ==
    LET b == Body(s)
        e == Find(b, {69, 101})
        mant == SubSeq(b, 1, e - 1)
        ex == SubSeq(b, e + 1, Len(b))
        p == Find(mant, {46})
        ip == SubSeq(mant, 1, p - 1)
        fp == SubSeq(mant, p + 1, Len(mant))
        digs == ip \o fp
        okm == digs # <<>> /\ \A i \in 1..Len(digs) : IsDigit(digs[i])
        oke == e > Len(b) \/ (Body(ex) # <<>> /\ \A i \in 1..Len(Body(ex)) : IsDigit(Body(ex)[i]))
        xm == IF e > Len(b) \/ ~oke THEN 0
              ELSE IF Len(Strip0([i \in 1..Len(Body(ex)) |-> Body(ex)[i] - 48])) > 4 THEN 9999
              ELSE InBase(Body(ex), 1, 10, 0)
        xv == IF Neg(ex) THEN -xm ELSE xm
        d0 == [i \in 1..Len(digs) |-> digs[i] - 48]
        d1 == Strip0(d0)
        d == StripEnd(d1)
        x == Len(ip) - (Len(d0) - Len(d1)) + xv
    IN  IF ~okm \/ ~oke THEN [ok |-> FALSE, v |-> <<>>]
        ELSE IF d = <<>> THEN [ok |-> TRUE, v |-> <<0, 0>>]
        ELSE [ok |-> x < 309, v |-> <<IF Neg(s) THEN 1 ELSE 0, x>> \o d]

(* Lists of strings, separated by commas.                                    *)
RECURSIVE Split(_, _, _)
Split(s, i, cur) ==
    IF i > Len(s) THEN <<cur>>
    ELSE IF s[i] = 44 THEN <<cur>> \o Split(s, i + 1, <<>>)
    ELSE Split(s, i + 1, Append(cur, s[i]))
Items(s) == IF s = <<>> THEN <<>> ELSE Split(s, 1, <<>>)

-----------------------------------------------------------------------------
(* Applying arguments.  vs: value of each setting.  Arguments that are not   *)
(* options are left over, except for empty ones.                             *)
NoPfx == <<Minus, 110, 111, Minus>>
Named(T, a) == {k \in 1..Len(T) : a = <<Minus>> \o T[k].name}
NoNamed(T, a) == {k \in 1..Len(T) : T[k].kind = "bool" /\ a = NoPfx \o T[k].name}
SetAll(vs, ids, v) == [i \in DOMAIN vs |-> IF \E j \in 1..Len(ids) : ids[j] = i THEN v ELSE vs[i]]
(* "key=integer" items, each sets one setting.                               *)
RECURSIVE SetKeys(_, _, _, _)
SetKeys(o, its, i, vs) ==
    IF i > Len(its) THEN [err |-> FALSE, vs |-> vs]
    ELSE LET eq == Find(its[i], {61})
             key == SubSeq(its[i], 1, eq - 1)
             w == IntVal("int", SubSeq(its[i], eq + 1, Len(its[i])))
             ks == {k \in 1..Len(o.keys) : o.keys[k] = key}
         IN  IF eq > Len(its[i]) \/ ~w.ok \/ key = <<>> THEN [err |-> TRUE, vs |-> vs]
             ELSE SetKeys(o, its, i + 1,
                          IF ks = {} THEN vs ELSE SetAll(vs, <<o.vars[CHOOSE k \in ks : TRUE]>>, w.v))
SetOpt(o, a, vs) ==
    CASE o.kind \in {"int", "idx"} -> LET w == IntVal(o.kind, a) IN [err |-> ~w.ok, vs |-> SetAll(vs, o.vars, w.v)]
      [] o.kind = "dbl" -> LET w == DblVal(a) IN [err |-> ~w.ok, vs |-> SetAll(vs, o.vars, w.v)]
      [] o.kind = "str" -> [err |-> FALSE, vs |-> SetAll(vs, o.vars, a)]
      [] o.kind = "list" ->
            LET its == Items(a)
            IN  [err |-> o.allowed # <<>> /\ \E i \in 1..Len(its) : ~\E j \in 1..Len(o.allowed) : o.allowed[j] = its[i],
                 vs |-> SetAll(vs, o.vars, a)]
      [] o.kind = "fold" -> SetKeys(o, Items(a), 1, vs)

RECURSIVE Parse(_, _, _, _, _)
Parse(T, args, i, vs, rest) ==
    IF i > Len(args) THEN [err |-> FALSE, vs |-> vs, rest |-> rest]
    ELSE LET a == args[i] nm == Named(T, a) no == NoNamed(T, a)
         IN  IF nm # {}
             THEN LET o == T[CHOOSE k \in nm : TRUE]
                  IN  IF o.kind = "bool" THEN Parse(T, args, i + 1, SetAll(vs, o.vars, <<1>>), rest)
                      ELSE IF i = Len(args) THEN [err |-> TRUE, vs |-> vs, rest |-> rest]
                      ELSE LET w == SetOpt(o, args[i + 1], vs)
                           IN  IF w.err THEN [err |-> TRUE, vs |-> vs, rest |-> rest]
                               ELSE Parse(T, args, i + 2, w.vs, rest)
             ELSE IF no # {} THEN Parse(T, args, i + 1, SetAll(vs, T[CHOOSE k \in no : TRUE].vars, <<0>>), rest)
             ELSE Parse(T, args, i + 1, vs, IF a = <<>> THEN rest ELSE Append(rest, a))

(* The outcome of giving the arguments: nothing changes if any is wrong.     *)
Apply(T, args, vs) ==
    LET r == Parse(T, args, 1, vs, <<>>)
    IN  IF r.err THEN [err |-> TRUE, vs |-> vs, rest |-> <<>>] ELSE r
=============================================================================
