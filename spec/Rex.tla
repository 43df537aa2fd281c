--------------------------------- MODULE Rex ---------------------------------
(* Regular expressions: their syntax and their language (rex/).                       *)
(* Syntax.  An expression is a sequence t of characters, read with a set B of blanks   *)
(* that are skipped between tokens (not inside classes). The text ends at a CR or LF.   *)
(*   alt    = cat { "|" cat }                cat = factor' { factor' }                  *)
(*   factor'= factor [ "*" | "?" | "+" | "{" n [ "," [ m ] ] "}" ]      with n <= m     *)
(*   factor = "(" alt ")" | "[" ["^"] items "]" | "." | "\" char | char                 *)
(* Language.  The meaning of an expression is given by its derivatives: after a         *)
(* character, a set of sequences of expressions still to be matched.                    *)
EXTENDS Integers, Sequences, FiniteSets

EOF == -2
Inf == -1
(* results of the parser: ok, position behind, expression; kind 0 error, 1 good, 2 not specified *)
Bad == [k |-> 0, p |-> 0, e |-> <<>>]
Open == [k |-> 2, p |-> 0, e |-> <<>>]
Good(p, e) == [k |-> 1, p |-> p, e |-> e]

CharSet(neg, rs) == [t |-> "set", neg |-> neg, rs |-> rs]
Cat(es) == [t |-> "cat", es |-> es]
Alt(es) == [t |-> "alt", es |-> es]
Rep(e, lo, hi) == [t |-> "rep", e |-> e, lo |-> lo, hi |-> hi]
Lit(c) == CharSet(FALSE, <<<<c, c>>>>)
Dot == CharSet(TRUE, <<<<10, 10>>>>)

Ch(t, p) == IF p > Len(t) \/ p < 1 THEN EOF ELSE IF t[p] \in {10, 13} THEN EOF ELSE t[p]
Raw(t, p) == IF p > Len(t) THEN EOF ELSE t[p]
White == {32} \cup 9..13
RECURSIVE Skip(_, _, _)
Skip(t, p, B) ==
  IF Raw(t, p) \in B THEN Skip(t, p + 1, B)
  ELSE IF Raw(t, p) = 92 /\ Raw(t, p + 1) = 10 THEN Skip(t, p + 2, B)
  ELSE IF Raw(t, p) = 92 /\ Raw(t, p + 1) = 13 /\ Raw(t, p + 2) = 10 THEN Skip(t, p + 3, B)
  ELSE p

Escaped(c) == CASE c = 114 -> 13 [] c = 110 -> 10 [] c = 116 -> 9 [] c = 48 -> 0 [] c = 102 -> 12 [] c = 118 -> 11 [] OTHER -> c
Digit(c, base) == LET v == IF c >= 48 /\ c <= 57 THEN c - 48
                           ELSE IF c >= 97 /\ c <= 102 THEN c - 87
                           ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
                  IN  IF v < base THEN v ELSE -1
Cap == 100000000
RECURSIVE Number(_, _, _, _)
Number(t, p, base, v) ==        \* <<position behind, value (capped)>>
  LET d == Digit(Ch(t, p), base)
  IN  IF d < 0 THEN <<p, v>> ELSE Number(t, p + 1, base, IF v > Cap THEN v ELSE v * base + d)

(* A numeric character: p is behind the '#'                                             *)
Numeric(t, p) ==
  LET c == Ch(t, p)
      hex == c \in {120, 88} \/ (c = 48 /\ Ch(t, p + 1) \in {120, 88})
      from == IF c \in {120, 88} THEN p + 1 ELSE IF hex THEN p + 2 ELSE p
      base == IF hex THEN 16 ELSE IF c = 48 THEN 8 ELSE 10
      r == Number(t, from, base, 0)
  IN  IF ~hex /\ Digit(c, 10) < 0 THEN Bad
      ELSE IF r[1] = from \/ r[2] > 1114111 \/ (base = 8 /\ Digit(Ch(t, r[1]), 10) >= 0) \/ r[1] - p > 100 THEN Open
      ELSE Good(r[1], r[2])
ItemChar(t, p) ==
  LET c == Ch(t, p)
  IN  IF c \in {91, 93, 45, EOF} THEN Bad
      ELSE IF c = 35 THEN Numeric(t, p + 1)
      ELSE IF c = 92 THEN IF Ch(t, p + 1) = EOF THEN Bad ELSE Good(p + 2, Escaped(Ch(t, p + 1)))
      ELSE Good(p + 1, c)
RECURSIVE Items(_, _, _)
Items(t, p, rs) ==
  LET a == ItemChar(t, p)
  IN  IF a.k # 1 THEN a
      ELSE LET b == IF Ch(t, a.p) = 45 THEN ItemChar(t, a.p + 1) ELSE a
           IN  IF b.k # 1 THEN b
               ELSE LET q == Append(rs, IF a.e <= b.e THEN <<a.e, b.e>> ELSE <<b.e, a.e>>)
                    IN  IF Ch(t, b.p) = 93 THEN Good(b.p + 1, q) ELSE Items(t, b.p, q)
Class(t, p) == LET neg == Ch(t, p + 1) = 94
                   r == Items(t, IF neg THEN p + 2 ELSE p + 1, <<>>)
               IN  IF r.k # 1 THEN r ELSE Good(r.p, CharSet(neg, r.e))

(* A count: p is at the '{'; gives <<low, high>>                                        *)
Count(t, p, B) ==
  LET Past(q) == IF Ch(t, q) \in B THEN Skip(t, q, B) ELSE q
      p1 == Skip(t, p + 1, B)
      n == Number(t, p1, 10, 0)
      p2 == Past(n[1])
      p3 == Skip(t, p2 + 1, B)
      m == Number(t, p3, 10, 0)
      two == Ch(t, p2) = 44
      p4 == IF ~two THEN p2 ELSE IF m[1] = p3 THEN p3 ELSE Past(m[1])
      hi == IF ~two THEN n[2] ELSE IF m[1] = p3 THEN Inf ELSE m[2]
  IN  IF n[1] = p1 \/ Ch(t, p4) # 125 THEN Bad
      ELSE IF n[1] - p1 > 100 \/ (two /\ m[1] - p3 > 100) THEN Open
      ELSE IF hi # Inf /\ n[2] > hi THEN Bad
      ELSE IF n[2] > 5000 \/ hi > 5000 THEN Open
      ELSE Good(Skip(t, p4 + 1, B), <<n[2], hi>>)

RECURSIVE AltAt(_, _, _, _), CatAt(_, _, _, _), Quantified(_, _, _)
Factor(t, p, B) ==
  LET c == Ch(t, p)
  IN  IF c \in {0, 123, 125, 42, 63, 43, 93} THEN IF c = 0 THEN Open ELSE Bad
      ELSE IF c = 91 THEN LET r == Class(t, p) IN IF r.k = 1 THEN Good(Skip(t, r.p, B), r.e) ELSE r
      ELSE IF c = 40
      THEN LET r == AltAt(t, Skip(t, p + 1, B), B, <<>>)
           IN  IF r.k # 1 THEN r ELSE IF Ch(t, r.p) # 41 THEN Bad ELSE Good(Skip(t, r.p + 1, B), r.e)
      ELSE IF c = 46 THEN Good(Skip(t, p + 1, B), Dot)
      ELSE IF c = 92 THEN IF Ch(t, p + 1) = EOF THEN Bad ELSE Good(Skip(t, p + 2, B), Lit(Escaped(Ch(t, p + 1))))
      ELSE Good(Skip(t, p + 1, B), Lit(c))
Quantified(t, p, B) ==
  LET f == Factor(t, p, B)
      c == Ch(t, f.p)
  IN  IF f.k # 1 THEN f
      ELSE CASE c = 42 -> Good(Skip(t, f.p + 1, B), Rep(f.e, 0, Inf))
             [] c = 63 -> Good(Skip(t, f.p + 1, B), Rep(f.e, 0, 1))
             [] c = 43 -> Good(Skip(t, f.p + 1, B), Rep(f.e, 1, Inf))
             [] c = 123 -> LET n == Count(t, f.p, B) IN IF n.k # 1 THEN n ELSE Good(n.p, Rep(f.e, n.e[1], n.e[2]))
             [] OTHER -> f
CatAt(t, p, B, es) ==
  IF Ch(t, p) \in {EOF, 124, 41}
  THEN IF es = <<>> THEN Bad ELSE Good(p, IF Len(es) = 1 THEN es[1] ELSE Cat(es))
  ELSE LET q == Quantified(t, p, B) IN IF q.k # 1 THEN q ELSE CatAt(t, q.p, B, Append(es, q.e))
AltAt(t, p, B, es) ==
  LET c == CatAt(t, p, B, <<>>)
      all == Append(es, c.e)
  IN  IF c.k # 1 THEN c
      ELSE IF Ch(t, c.p) = 124 THEN AltAt(t, Skip(t, c.p + 1, White), B, all)
      ELSE Good(c.p, IF Len(all) = 1 THEN c.e ELSE Alt(all))
Parse(t, B) == LET r == AltAt(t, Skip(t, 1, B), B, <<>>)
               IN  IF r.k = 1 /\ Ch(t, r.p) # EOF THEN Bad ELSE r

(* ------------------------------------------------------------------ the language    *)
In(c, s) == LET hit == \E j \in 1..Len(s.rs) : s.rs[j][1] <= c /\ c <= s.rs[j][2] IN IF s.neg THEN ~hit ELSE hit
RECURSIVE Nul(_)
Nul(e) == CASE e.t = "set" -> FALSE
            [] e.t = "cat" -> \A j \in 1..Len(e.es) : Nul(e.es[j])
            [] e.t = "alt" -> \E j \in 1..Len(e.es) : Nul(e.es[j])
            [] e.t = "rep" -> e.lo = 0 \/ Nul(e.e)
(* what may remain of expression e, or of the sequence q of expressions, after c         *)
RECURSIVE D(_, _), DSeq(_, _)
DSeq(q, c) ==
  IF q = <<>> THEN {}
  ELSE {d \o Tail(q) : d \in D(Head(q), c)} \cup (IF Nul(Head(q)) THEN DSeq(Tail(q), c) ELSE {})
D(e, c) ==
  CASE e.t = "set" -> IF In(c, e) THEN {<<>>} ELSE {}
    [] e.t = "cat" -> DSeq(e.es, c)
    [] e.t = "alt" -> UNION {D(e.es[j], c) : j \in 1..Len(e.es)}
    [] e.t = "rep" -> IF e.hi = 0 THEN {}
                      ELSE LET lo == IF e.lo = 0 THEN 0 ELSE e.lo - 1
                               hi == IF e.hi = Inf THEN Inf ELSE e.hi - 1
                           IN  {IF hi = 0 THEN d ELSE Append(d, Rep(e.e, lo, hi)) : d \in D(e.e, c)}
Begin(e) == {<<e>>}
After(S, c) == UNION {DSeq(q, c) : q \in S}
Accepts(S) == \E q \in S : \A j \in 1..Len(q) : Nul(q[j])

(* The lengths of the accepted prefixes of the word w (a sequence of characters)          *)
RECURSIVE PrefixesFrom(_, _, _)
PrefixesFrom(S, w, n) ==
  IF n >= Len(w) \/ S = {} THEN {}
  ELSE LET N == After(S, w[n + 1]) IN (IF Accepts(N) THEN {n + 1} ELSE {}) \cup PrefixesFrom(N, w, n + 1)
Prefixes(e, w) == PrefixesFrom(Begin(e), w, 0) \cup (IF Nul(e) THEN {0} ELSE {})

(* Characters that no class of e separates from their predecessor look the same to e      *)
RECURSIVE Bounds(_)
Bounds(e) == CASE e.t = "set" -> UNION {{e.rs[j][1], e.rs[j][2] + 1} : j \in 1..Len(e.rs)}
               [] e.t \in {"cat", "alt"} -> UNION {Bounds(e.es[j]) : j \in 1..Len(e.es)}
               [] e.t = "rep" -> Bounds(e.e)
=============================================================================
