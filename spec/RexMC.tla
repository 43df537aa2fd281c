-------------------------------- MODULE RexMC --------------------------------
(* All expressions of a bounded size over two characters: their language as defined by   *)
(* derivatives is the one their structure denotes, and writing an expression down and     *)
(* reading it again keeps the language.                                                   *)
EXTENDS Rex, TLC, Json, SequencesExt
CONSTANTS Depth, Longest
VARIABLES e, d
vars == <<e, d>>
A == {97, 98}
Words(n) == UNION {[1..k -> A] : k \in 0..n}
W == Words(Longest)
(* the language of e cut at length Longest, by structure                                  *)
Join(P, Q) == {p \o q : p \in P, q \in Q} \cap W
RECURSIVE Power(_, _), Lang(_)
Power(P, n) == IF n = 0 THEN {<<>>} ELSE Join(P, Power(P, n - 1))
RECURSIVE CatL(_)
CatL(s) == IF s = <<>> THEN {<<>>} ELSE Join(Lang(Head(s)), CatL(Tail(s)))
Lang(x) == CASE x.t = "set" -> {<<c>> : c \in {c \in A : In(c, x)}}
             [] x.t = "cat" -> CatL(x.es)
             [] x.t = "alt" -> UNION {Lang(x.es[j]) : j \in 1..Len(x.es)}
             [] x.t = "rep" -> UNION {Power(Lang(x.e), n) : n \in x.lo..(IF x.hi = Inf THEN x.lo + Longest ELSE x.hi)}
(* one way to write it                                                                    *)
Num(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + n \div 10, 48 + (n % 10)>>
One(r) == IF r[1] = r[2] THEN <<r[1]>> ELSE <<r[1], 45, r[2]>>
RECURSIVE Text(_), Joined(_, _)
Group(x) == IF x.t = "set" THEN Text(x) ELSE <<40>> \o Text(x) \o <<41>>
Joined(s, sep) == IF Len(s) = 1 THEN Group(s[1]) ELSE Group(s[1]) \o sep \o Joined(Tail(s), sep)
Text(x) == CASE x.t = "set" -> IF ~x.neg /\ Len(x.rs) = 1 /\ x.rs[1][1] = x.rs[1][2] THEN <<x.rs[1][1]>>
                               ELSE <<91>> \o (IF x.neg THEN <<94>> ELSE <<>>) \o FlattenSeq([j \in 1..Len(x.rs) |-> One(x.rs[j])]) \o <<93>>
             [] x.t = "cat" -> Joined(x.es, <<>>)
             [] x.t = "alt" -> Joined(x.es, <<124>>)
             [] x.t = "rep" -> Group(x.e) \o
                 (IF x.lo = 0 /\ x.hi = Inf THEN <<42>> ELSE IF x.lo = 1 /\ x.hi = Inf THEN <<43>> ELSE IF x.lo = 0 /\ x.hi = 1 THEN <<63>>
                  ELSE <<123>> \o Num(x.lo) \o (IF x.hi = x.lo THEN <<>> ELSE IF x.hi = Inf THEN <<44>> ELSE <<44>> \o Num(x.hi)) \o <<125>>)
Atoms == {Lit(97), Lit(98), CharSet(FALSE, <<<<97, 98>>>>), CharSet(TRUE, <<<<97, 97>>>>)}
Counts == {<<0, Inf>>, <<1, Inf>>, <<0, 1>>, <<0, 0>>, <<2, 2>>, <<1, 3>>, <<0, 2>>, <<2, Inf>>}
Init == e \in Atoms /\ d = 0
Next == /\ d < Depth
        /\ d' = d + 1
        /\ \/ \E c \in Counts : e' = Rep(e, c[1], c[2])
           \/ \E a \in Atoms : e' \in {Cat(<<e, a>>), Cat(<<a, e>>), Alt(<<e, a>>), Alt(<<a, e>>)}
           \/ e' \in {Cat(<<e, e>>), Alt(<<e, Cat(<<e, Lit(97)>>)>>)}
Spec == Init /\ [][Next]_vars
ByDerivative == \A w \in {w \in W : Len(w) = Longest} : Prefixes(e, w) = {n \in 0..Longest : SubSeq(w, 1, n) \in Lang(e)}
Written == LET r == Parse(Text(e), {32, 9})
               s == Parse(FlattenSeq([j \in 1..Len(Text(e)) |-> IF Text(e)[j] = 94 \/ (\E k \in 1..j : Text(e)[k] = 91 /\ ~\E n \in k..j : Text(e)[n] = 93) THEN <<Text(e)[j]>> ELSE <<Text(e)[j], 32>>]), {32, 9})
           IN  r.k = 1 /\ Lang(r.e) = Lang(e) /\ s.k = 1 /\ s.e = r.e
Emit == IF d' < 2 \/ d' = Depth THEN PrintT("EDGE " \o ToJson(Text(e'))) ELSE TRUE
=============================================================================
