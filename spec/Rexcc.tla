-------------------------------- MODULE Rexcc --------------------------------
(* The lexer generator (rexcc/): token files and the scanners made from them.           *)
(* A token file is a prolog, a line "%%", lines with rules, a line "%%", an epilog.       *)
(* A rule is a name, blanks and an expression; a line that ends with a backslash goes on   *)
(* on the next one; empty lines and lines that start with a blank are not rules.           *)
EXTENDS Rex

Blank == {32, 9}
(* The position behind the line that starts at p (behind its LF); 0 if it does not end      *)
RECURSIVE LineEnd(_, _)
LineEnd(t, p) == IF p > Len(t) THEN 0 ELSE IF t[p] = 10 THEN p + 1 ELSE LineEnd(t, p + 1)
Chopped(t, q) == LET e == IF q - 2 >= 1 /\ t[q - 2] = 13 THEN q - 3 ELSE q - 2 IN e     \* last character of a line that ends before q
IsDelim(t, p) == LET q == LineEnd(t, p) IN q > 0 /\ Chopped(t, q) = p + 1 /\ t[p] = 37 /\ t[p + 1] = 37
(* the position of the first delimiter line at or behind the line that starts at p          *)
RECURSIVE Delim(_, _)
Delim(t, p) == LET q == LineEnd(t, p) IN IF q = 0 THEN 0 ELSE IF IsDelim(t, p) THEN p ELSE Delim(t, q)
RECURSIVE Logical(_, _)         \* the end of a rule line with its continuations
Logical(t, p) == LET q == LineEnd(t, p)
                 IN  IF q = 0 THEN 0
                     ELSE IF Chopped(t, q) >= p /\ t[Chopped(t, q)] = 92 /\ LineEnd(t, q) > 0 THEN Logical(t, q) ELSE q
RECURSIVE NameEnd(_, _)
NameEnd(t, p) == IF t[p] \in Blank \cup {10, 13} THEN p ELSE NameEnd(t, p + 1)
LastQuote(t, p, q) == CHOOSE x \in p + 1..q : t[x] = 39 /\ \A y \in x + 1..q : t[y] # 39
Name(t, p) == IF t[p] = 39 THEN LastQuote(t, p, Chopped(t, LineEnd(t, p))) + 1 ELSE NameEnd(t, p)

NoFile == [k |-> 0, prolog |-> <<>>, rules |-> <<>>, epilog |-> <<>>]
RECURSIVE Rules(_, _, _)        \* <<behind the delimiter or 0, rules>>
Rules(t, p, rs) ==
  LET q == LineEnd(t, p)
      e == Logical(t, p)
      n == Name(t, p)
  IN  IF q = 0 THEN <<0, rs>>
      ELSE IF IsDelim(t, p) THEN <<q, rs>>
      ELSE IF Chopped(t, q) < p THEN Rules(t, q, rs)
      ELSE IF t[p] \in Blank THEN Rules(t, e, rs)
      ELSE IF n >= Chopped(t, q) \/ t[n] \notin Blank THEN <<0, rs>>              \* a name without expression
      ELSE Rules(t, e, Append(rs, [name |-> SubSeq(t, p, n - 1), regex |-> SubSeq(t, n, e - 1)]))
File(t) ==
  LET d == Delim(t, 1)
      r == Rules(t, LineEnd(t, d), <<>>)
  IN  IF d = 0 THEN NoFile
      ELSE IF r[1] = 0 \/ \E j \in 1..Len(r[2]) : Parse(r[2][j].regex, Blank).k = 0 THEN NoFile
      ELSE IF r[2] = <<>> THEN NoFile
      ELSE [k |-> IF \E j \in 1..Len(r[2]) : Parse(r[2][j].regex, Blank).k = 2 THEN 2 ELSE 1,
            prolog |-> SubSeq(t, 1, d - 1), rules |-> r[2], epilog |-> SubSeq(t, r[1], Len(t))]

(* The scanner: at every position the longest token, and all rules that accept it in the      *)
(* order of the file; a character that starts no token is skipped                              *)
Step(asts, w, k) ==
  LET P == [j \in 1..Len(asts) |-> Prefixes(asts[j], SubSeq(w, k, Len(w))) \ {0}]
      all == UNION {P[j] : j \in 1..Len(asts)}
      n == IF all = {} THEN 0 ELSE CHOOSE n \in all : \A m \in all : m <= n
      ok == {j \in 1..Len(asts) : n \in P[j]}
  IN  [n |-> n, rules |-> IF n = 0 THEN <<>> ELSE [h \in 1..Cardinality(ok) |-> CHOOSE j \in ok : Cardinality({x \in ok : x < j}) = h - 1]]
RECURSIVE Tokens(_, _, _)
Tokens(asts, w, k) == IF k > Len(w) THEN <<>>
                      ELSE LET s == Step(asts, w, k) IN <<s>> \o Tokens(asts, w, IF s.n = 0 THEN k + 1 ELSE k + s.n)
=============================================================================
