----------------------------- MODULE RexccJudge -----------------------------
(* Decides recorded runs of the lexer generator and of the scanners it writes (X05).     *)
EXTENDS Rexcc, Utf, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT G
VARIABLES i, g
Chars(d) == TLCEval([j \in 1..Len(d) |-> d[j][1]])
RECURSIVE Bytes(_, _, _)
Bytes(d, k, n) == IF n = 0 THEN 0 ELSE d[k][2] + Bytes(d, k + 1, n - 1)
(* what the scanner reports of the tokens: bytes, and the values of the names of the rules *)
RECURSIVE Report(_, _, _, _)
Report(v, d, ts, k) ==
  IF ts = <<>> THEN <<>>
  ELSE LET s == Head(ts)
           n == IF s.n = 0 THEN 1 ELSE s.n
       IN  <<<<Bytes(d, k, n), [h \in 1..Len(s.rules) |-> v[s.rules[h]]]>>>> \o Report(v, d, Tail(ts), k + n)
Want(c) == LET f == TLCEval(File(c.t))
               asts == TLCEval([j \in 1..Len(f.rules) |-> Parse(f.rules[j].regex, Blank).e])
               v == TLCEval([j \in 1..Len(f.rules) |-> c.values[CHOOSE h \in 1..Len(c.names) : c.names[h] = f.rules[j].name]])
           IN  [n \in 1..Len(c.ws) |-> LET d == Decode(0, c.ws[n]) IN Report(v, d, Tokens(asts, Chars(d), 1), 1)]
ScanOk(c) == File(c.t).k = 2 \/ c.tokens = Want(c)
(* the file written: user code is kept                                                       *)
Found(p, s) == \E j \in 0..Len(s) - Len(p) : \A h \in 1..Len(p) : s[j + h] = p[h]
FileOk(c) == LET f == File(c.t)
             IN  CASE f.k = 2 -> TRUE
                   [] f.k = 0 -> c.size = 0
                   [] f.k = 1 -> c.size > 0 /\ Found(f.prolog, c.head) /\ c.tail = f.epilog
Ok(c) == IF c.k = "file" THEN FileOk(c) ELSE ScanOk(c)
Why(c) == LET f == File(c.t) IN IF c.k = "file" THEN <<f.k, Len(f.prolog), Len(f.epilog), Len(f.rules)>>
          ELSE LET w == Want(c) n == CHOOSE n \in 1..Len(w) : w[n] # c.tokens[n] IN <<c.ws[n], w[n], c.tokens[n]>>
Verdict(n) == IF Ok(Cases[n]) THEN TRUE ELSE PrintT(<<"REJECT", n, "want", ToString(Why(Cases[n]))>>)
JInit == g \in 1..G /\ i = 0
JNext == LET n == (IF i = 0 THEN g ELSE i + G)
         IN  /\ n <= Len(Cases) /\ Verdict(n) /\ i' = n /\ g' = g
JSpec == JInit /\ [][JNext]_<<i, g>>
=============================================================================
