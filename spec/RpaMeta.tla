------------------------------- MODULE RpaMeta -------------------------------
(* The grammar language as text: which texts are grammars, where the longest well-  *)
(* formed prefix ends, and which items (with which expressions) a text denotes.     *)
(* t is the sequence of the characters of the text.  A construct yields             *)
(* <<position behind it, tree>>; position 0 is "not here".                          *)
EXTENDS RpaPeg

No == <<0, <<>>>>
Is(v) == v[1] # 0
Ch(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
At(t, i, c) == Ch(t, i) = c
Opt(i, j) == IF j = 0 THEN i ELSE j
Lower(c) == In(c, 97, 122)
Upper(c) == In(c, 65, 90)
Digit(c) == In(c, 48, 57)

RECURSIVE Space(_, _), IdTail(_, _), Lit(_, _, _), Line(_, _)
(* blanks; a backslash at the end of a line continues it *)
Space(t, i) ==
  LET c == Ch(t, i)
      j == IF c \in {32, 9} THEN i + 1
           ELSE IF c = 92 /\ At(t, i + 1, 10) THEN i + 2
           ELSE IF c = 92 /\ At(t, i + 1, 13) /\ At(t, i + 2, 10) THEN i + 3
           ELSE 0
  IN  IF j = 0 THEN 0 ELSE Opt(j, Space(t, j))
Sp(t, i) == Opt(i, Space(t, i))
IdTail(t, i) == LET c == Ch(t, i) IN IF Lower(c) \/ Upper(c) \/ Digit(c) \/ c = 95 THEN IdTail(t, i + 1) ELSE i
Name(t, i) == LET c == Ch(t, i) IN IF Lower(c) \/ Upper(c) \/ c = 95 THEN IdTail(t, i + 1) ELSE 0
Alias(t, i) == LET c == Ch(t, i) IN IF Lower(c) \/ Upper(c) THEN IdTail(t, i + 1) ELSE 0
Lit(t, i, s) == IF s = <<>> THEN i ELSE IF At(t, i, Head(s)) THEN Lit(t, i + 1, Tail(s)) ELSE 0
Line(t, i) == IF i > Len(t) \/ Ch(t, i) \in {10, 13} THEN i ELSE Line(t, i + 1)

(* ------------------------------------------------------------- numbers -------- *)
RECURSIVE DecTail(_, _, _), HexTail(_, _, _)
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF In(c, 97, 102) THEN c - 87 ELSE IF In(c, 65, 70) THEN c - 55 ELSE -1
DecTail(t, i, v) == IF Digit(Ch(t, i)) THEN DecTail(t, i + 1, 10 * v + Ch(t, i) - 48) ELSE <<i, v>>
HexTail(t, i, v) == IF HexVal(Ch(t, i)) >= 0 THEN HexTail(t, i + 1, 16 * v + HexVal(Ch(t, i))) ELSE <<i, v>>
Dec(t, i) == IF In(Ch(t, i), 49, 57) THEN DecTail(t, i, 0) ELSE No
Num(t, i) ==
  IF ~At(t, i, 35) THEN No
  ELSE LET j == IF At(t, i + 1, 48) THEN i + 2 ELSE i + 1
       IN  IF Ch(t, j) \in {120, 88} /\ HexVal(Ch(t, j + 1)) >= 0 THEN HexTail(t, j + 1, 0)
           ELSE Dec(t, i + 1)

(* ------------------------------------------------------------- classes -------- *)
ClsPlain(c) == c # -1 /\ c \notin {32, 35, 92, 45, 91, 93, 9, 13, 10, 0}
SpecialVal(c) == CASE c = 114 -> 13 [] c = 110 -> 10 [] c = 116 -> 9 [] OTHER -> c
RECURSIVE NumCls(_, _, _), AlphaCls(_, _, _)
NumCls(t, i, r) ==
  LET a == Num(t, i)
      b == IF Is(a) /\ At(t, a[1], 45) THEN Num(t, a[1] + 1) ELSE No
  IN  IF Is(b) THEN NumCls(t, b[1], Append(r, <<a[2], b[2]>>))
      ELSE IF Is(a) THEN NumCls(t, a[1], Append(r, <<a[2], a[2]>>))
      ELSE IF r # <<>> /\ At(t, i, 93) THEN <<i + 1, r>> ELSE No
AlphaCls(t, i, r) ==
  LET c == Ch(t, i)
  IN  IF ClsPlain(c) /\ At(t, i + 1, 45) /\ ClsPlain(Ch(t, i + 2)) THEN AlphaCls(t, i + 3, Append(r, <<c, Ch(t, i + 2)>>))
      ELSE IF ClsPlain(c) THEN AlphaCls(t, i + 1, Append(r, <<c, c>>))
      ELSE IF c = 92 /\ i < Len(t) THEN LET v == SpecialVal(Ch(t, i + 1)) IN AlphaCls(t, i + 2, Append(r, <<v, v>>))
      ELSE IF r # <<>> /\ c = 93 THEN <<i + 1, r>> ELSE No
Cls(t, i) ==
  IF ~At(t, i, 91) THEN No
  ELSE LET n == NumCls(t, i + 1, <<>>)
           v == IF Is(n) THEN n ELSE AlphaCls(t, i + 1, <<>>)
       IN  IF Is(v) THEN <<v[1], <<[k |-> "cls", r |-> v[2], q |-> ""]>>>> ELSE No

(* ------------------------------------------------------------- terms ---------- *)
RECURSIVE StrTail(_, _, _, _)
CharT(c) == [k |-> "chr", c |-> c, q |-> ""]
StrTail(t, i, quote, es) ==
  IF i > Len(t) THEN No
  ELSE IF Ch(t, i) = quote THEN (IF es = <<>> THEN No ELSE <<i + 1, es>>)
  ELSE StrTail(t, i + 1, quote, Append(es, CharT(Ch(t, i))))
Text(t, i, j) == SubSeq(t, i, j - 1)
Ref(t, i) ==
  IF ~At(t, i, 60) THEN No
  ELSE LET c == At(t, i + 1, 58)
           a == IF c THEN i + 2 ELSE i + 1
           n == Name(t, a)
       IN  IF n = 0 THEN No
           ELSE LET e == IF c THEN Lit(t, n, <<58, 62>>) ELSE Lit(t, n, <<62>>)
                IN  IF e = 0 THEN No ELSE <<e, <<[k |-> "ref", n |-> Text(t, a, n), q |-> ""]>>>>

Occ(c) == CASE c = 63 -> "?" [] c = 42 -> "*" [] c = 43 -> "+" [] OTHER -> ""
(* a quantifier counts for the last item written *)
Quant(es, q) == IF q = "" THEN es ELSE [es EXCEPT ![Len(es)].q = q]
RECURSIVE OrExp(_, _), Alts(_, _, _), MinExp(_, _), Negs(_, _, _), NegRun(_, _, _), Exp(_, _), ExpTail(_, _, _)
Bracket(t, i) ==
  IF ~At(t, i, 40) THEN No
  ELSE LET e == OrExp(t, Sp(t, i + 1))
           j == IF Is(e) THEN Sp(t, e[1]) ELSE 0
       IN  IF Is(e) /\ At(t, j, 41) THEN <<j + 1, <<[k |-> "grp", e |-> e[2], q |-> ""]>>>> ELSE No
Terminal(t, i) ==
  LET c == Ch(t, i)
  IN  CASE c = 91 -> Cls(t, i)
        [] c \in {39, 34} -> StrTail(t, i + 1, c, <<>>)
        [] c = 60 -> Ref(t, i)
        [] c = 40 -> Bracket(t, i)
        [] OTHER -> No
Plain(c) == c # -1 /\ c \notin {0, 32, 126, 35, 94, 45, 124, 38, 43, 42, 63, 34, 39, 40, 41, 91, 93, 60, 62, 46, 59, 9, 13, 10}
QChar(t, i) ==
  LET c == Ch(t, i)
  IN  IF c = 46 THEN <<i + 1, <<[k |-> "any", q |-> ""]>>>>
      ELSE IF c = 92 /\ i < Len(t)
           THEN <<i + 2, <<IF Ch(t, i + 1) \in {114, 110, 116} THEN [k |-> "spc", c |-> SpecialVal(Ch(t, i + 1)), q |-> ""] ELSE CharT(Ch(t, i + 1))>>>>
      ELSE IF Plain(c) THEN <<i + 1, <<CharT(c)>>>>
      ELSE No
QExp(t, i) ==
  LET a == Terminal(t, i)
      v == IF Is(a) THEN a ELSE QChar(t, i)
  IN  IF ~Is(v) THEN No
      ELSE LET j == Sp(t, v[1])
               q == Occ(Ch(t, j))
           IN  <<Sp(t, IF q = "" THEN j ELSE j + 1), Quant(v[2], q)>>
Anchor(t, i) ==
  LET a == IF At(t, i, 126) THEN QExp(t, Sp(t, i + 1)) ELSE No
      v == IF Is(a) THEN a ELSE QExp(t, i)
  IN  IF Is(v) THEN <<Sp(t, v[1]), v[2]>> ELSE No
NotExp(t, i) ==
  IF At(t, i, 94)
  THEN LET v == Anchor(t, Sp(t, i + 1))
       IN  IF Is(v) THEN <<Sp(t, v[1]), <<[k |-> "not", e |-> [k |-> "seq", es |-> v[2]]]>>>> ELSE No
  ELSE Anchor(t, i)
ExpTail(t, i, es) == LET v == NotExp(t, i) IN IF Is(v) THEN ExpTail(t, v[1], es \o v[2]) ELSE <<i, es>>
Exp(t, i) ==
  LET v == ExpTail(t, i, <<>>)
  IN  IF v[2] = <<>> THEN No ELSE <<v[1], [k |-> "seq", es |-> v[2]]>>

NegRun(t, i, rs) == LET v == Exp(t, i) IN IF Is(v) THEN NegRun(t, v[1], Append(rs, v[2])) ELSE <<i, rs>>
Negs(t, i, rs) ==
  LET j == Sp(t, i)
      v == IF At(t, j, 45) THEN NegRun(t, Sp(t, j + 1), <<>>) ELSE <<0, <<>>>>
  IN  IF v[2] = <<>> THEN <<i, rs>> ELSE Negs(t, v[1], rs \o v[2])
MinExp(t, i) ==
  LET e == Exp(t, i)
  IN  IF ~Is(e) THEN No
      ELSE LET n == Negs(t, e[1], <<>>)
           IN  IF n[2] = <<>> THEN e ELSE <<n[1], [k |-> "min", l |-> e[2], rs |-> n[2]]>>

(* a line may be broken in front of and behind a bar *)
Break(t, i) == LET a == Sp(t, i)
                   b == IF At(t, a, 13) THEN a + 1 ELSE a
                   c == IF At(t, b, 10) THEN b + 1 ELSE b
               IN  Sp(t, c)
Alts(t, i, es) ==
  LET j == Break(t, i)
      v == IF At(t, j, 124) THEN MinExp(t, Break(t, j + 1)) ELSE No
  IN  IF Is(v) THEN Alts(t, v[1], Append(es, v[2])) ELSE <<i, es>>
OrExp(t, i) ==
  LET e == MinExp(t, i)
  IN  IF ~Is(e) THEN No
      ELSE LET a == Alts(t, e[1], <<e[2]>>)
           IN  IF Len(a[2]) = 1 THEN e ELSE <<a[1], [k |-> "alt", es |-> a[2]]>>
RECURSIVE OrExps(_, _, _)
OrExps(t, i, es) == LET v == OrExp(t, i) IN IF Is(v) THEN OrExps(t, v[1], Append(es, v[2])) ELSE <<i, es>>
Body(es) == IF Len(es) = 1 THEN es[1] ELSE [k |-> "seq", es |-> es]

(* ------------------------------------------------------------- items ---------- *)
RECURSIVE ColonEq(_, _)
Assign(t, i) == LET j == Lit(t, Sp(t, i), <<58, 58, 61>>) IN IF j = 0 THEN 0 ELSE Sp(t, j)
NamedRule(t, i) ==
  LET a == Sp(t, i)
      n == Name(t, a)
      b == IF n = 0 THEN 0 ELSE Assign(t, n)
      es == IF b = 0 THEN No ELSE OrExps(t, b, <<>>)
  IN  IF es[2] = <<>> THEN No
      ELSE <<es[1], [k |-> "rule", n |-> Text(t, a, n), b |-> Body(es[2]), f |-> i, e |-> es[1]]>>
AnonRule(t, i) ==
  LET es == OrExps(t, Sp(t, i), <<>>)
  IN  IF es[2] = <<>> THEN No
      ELSE <<es[1], [k |-> "anon", n |-> Text(t, i, es[1]), b |-> Body(es[2]), f |-> i, e |-> es[1]]>>
ColonEq(t, i) == i
kwEmit == <<101, 109, 105, 116>>
Kw(d) == CASE d = "emit" -> kwEmit
           [] d = "noemit" -> <<110, 111>> \o kwEmit
           [] d = "emitall" -> kwEmit \o <<97, 108, 108>>
           [] d = "emitnone" -> kwEmit \o <<110, 111, 110, 101>>
           [] d = "abort" -> <<97, 98, 111, 114, 116>>
           [] d = "emitid" -> kwEmit \o <<105, 100>>
Dir(t, i, d) ==
  LET a == IF At(t, i, 35) THEN Sp(t, i + 1) ELSE 0
      b == IF a # 0 /\ At(t, a, 33) THEN Lit(t, Sp(t, a + 1), Kw(d)) ELSE 0
      It(j, n, u) == <<j, [k |-> "dir", n |-> Text(t, i, j), d |-> d, t |-> n, u |-> u, f |-> i, e |-> j]>>
  IN  IF b = 0 THEN No
      ELSE IF d \in {"emitall", "emitnone"} THEN It(b, <<>>, 0)
      ELSE LET c == Space(t, b)
               n == IF c = 0 THEN 0 ELSE Name(t, c)
           IN  IF n = 0 THEN No
               ELSE IF d # "emitid" THEN It(n, Text(t, c, n), 0)
               ELSE LET s == Space(t, n)
                        al == IF s = 0 THEN 0 ELSE Alias(t, s)
                        v == IF s = 0 THEN No ELSE Dec(t, IF al = 0 THEN s ELSE Sp(t, al))
                    IN  IF Is(v) THEN It(v[1], Text(t, c, n), v[2]) ELSE No
RECURSIVE FirstDir(_, _, _), Dirs(_, _, _)
FirstDir(t, i, ds) == IF ds = <<>> THEN No ELSE LET v == Dir(t, i, Head(ds)) IN IF Is(v) THEN v ELSE FirstDir(t, i, Tail(ds))
Dirs(t, i, its) ==
  LET v == FirstDir(t, i, <<"emit", "noemit", "emitall", "emitnone", "abort", "emitid">>)
  IN  IF Is(v) THEN Dirs(t, v[1], Append(its, v[2])) ELSE <<i, its>>

(* A whole text: <<where the well-formed prefix ends, its items>> *)
RECURSIVE Grammar(_, _, _), Junk(_, _), Comment(_, _)
Junk(t, i) == IF Ch(t, i) \in {13, 10, 59, 0} THEN Junk(t, i + 1) ELSE i
Comment(t, i) == IF i > Len(t) \/ Ch(t, i) \in {13, 10, 0} THEN i ELSE Comment(t, i + 1)
Grammar(t, i, its) ==
  IF Space(t, i) # 0 THEN Grammar(t, Space(t, i), its)
  ELSE LET d == Dirs(t, i, <<>>)
       IN  IF d[2] # <<>> THEN Grammar(t, Line(t, d[1]), its \o d[2])
           ELSE IF At(t, i, 35) THEN Grammar(t, Comment(t, i + 1), its)
           ELSE IF Junk(t, i) # i THEN Grammar(t, Junk(t, i), its)
           ELSE LET n == NamedRule(t, i)
                    a == IF Is(n) THEN n ELSE AnonRule(t, i)
                IN  IF Is(a) THEN Grammar(t, a[1], Append(its, a[2])) ELSE <<i, its>>
Read(t) == Grammar(t, 1, <<>>)

(* ------------------------------------------------------------- references ----- *)
RECURSIVE Refs(_)
Refs(e) ==
  CASE e.k \in {"seq", "alt"} -> UNION {Refs(e.es[k]) : k \in 1..Len(e.es)}
    [] e.k = "min" -> Refs(e.l) \cup UNION {Refs(e.rs[k]) : k \in 1..Len(e.rs)}
    [] e.k \in {"not", "grp"} -> Refs(e.e)
    [] e.k = "ref" -> {e.n}
    [] OTHER -> {}
Unresolved(items) ==
  UNION {Refs(items[k].b) : k \in {m \in 1..Len(items) : items[m].k # "dir"}} \ {items[k].n : k \in {m \in 1..Len(items) : items[m].k = "rule"}}
=============================================================================
