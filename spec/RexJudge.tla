------------------------------ MODULE RexJudge ------------------------------
(* Decides recorded runs of the regular expression engine (X01..X04).                   *)
EXTENDS Rex, Utf, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT G
VARIABLES i, g
SetOf(s) == {s[j] : j \in 1..Len(s)}
Chars(d) == TLCEval([j \in 1..Len(d) |-> d[j][1]])
RECURSIVE Bytes(_, _)
Bytes(d, n) == IF n = 0 THEN 0 ELSE d[n][2] + Bytes(d, n - 1)
Ast(c, j) == Parse(c.es[j], SetOf(c.bl)).e

(* Simulation of the union of expressions es with user data ud. For every word, the       *)
(* multiset (sorted) of <<characters, bytes, user data>> accepted; the empty prefix is      *)
(* not reported                                                                            *)
Sims(c, bs) ==
  LET d == Decode(0, bs)
  IN  UNION {{<<n, Bytes(d, n), c.ud[j]>> : n \in Prefixes(Ast(c, j), Chars(d)) \ {0}} : j \in 1..Len(c.es)}
NfaOk(c) == \A k \in 1..Len(c.ws) : Len(c.acc[k]) = Cardinality(SetOf(c.acc[k])) /\ SetOf(c.acc[k]) = Sims(c, c.ws[k])
NfaWhy(c) == LET k == CHOOSE k \in 1..Len(c.ws) : SetOf(c.acc[k]) # Sims(c, c.ws[k]) IN <<c.ws[k], Sims(c, c.ws[k]), c.acc[k]>>

(* A deterministic automaton st with user data per state against the expressions            *)
NextOf(q, x) == LET hit == {t \in SetOf(q.tr) : t[1] <= x /\ x <= t[2]} IN IF hit = {} THEN 0 ELSE (CHOOSE t \in hit : TRUE)[3]
Sorted(q) == \A j \in 1..Len(q.tr) : q.tr[j][1] <= q.tr[j][2] /\ (j > 1 => q.tr[j - 1][2] < q.tr[j][1])
Ends(c, q) == c.st[q + 1].acc
AccOf(V, ud) == LET ok == {j \in 1..Len(V) : Accepts(V[j])}
                    n == Cardinality(ok)
                IN  [m \in 1..n |-> ud[CHOOSE j \in ok : Cardinality({h \in ok : h < j}) = m - 1]]
Agree(c, V, q) == /\ Ends(c, q) = AccOf(V, c.ud)
                  /\ q # 1 => (c.st[q + 1].type = 2) = (Ends(c, q) # <<>>)
RECURSIVE Explore(_, _, _, _)
Explore(c, R, seen, new) ==
  IF new = {} THEN TRUE
  ELSE /\ \A p \in new : Agree(c, p[1], p[2])
       /\ LET nx == UNION {{<<[j \in 1..Len(p[1]) |-> After(p[1][j], x)], NextOf(c.st[p[2] + 1], x)>> : x \in R} : p \in new}
              all == seen \cup new
          IN  Explore(c, R, all, nx \ all)
DfaOk(c) ==
  LET asts == TLCEval([j \in 1..Len(c.es) |-> Ast(c, j)])
      R0 == {0} \cup UNION {Bounds(asts[j]) : j \in 1..Len(asts)} \cup UNION {{t[1] : t \in SetOf(c.st[q].tr)} : q \in 1..Len(c.st)}
      R == {x \in R0 : x >= 0 /\ x <= 1114111}
      V0 == TLCEval([j \in 1..Len(asts) |-> Begin(asts[j])])
  IN  /\ \A q \in 1..Len(c.st) : Sorted(c.st[q])
      /\ Explore(c, R, {}, {<<V0, 1>>})

(* Running the deterministic automata along words                                          *)
Steps(c, d) == LET P == TLCEval([j \in 1..Len(c.es) |-> Prefixes(Ast(c, j), Chars(d))])
                   Of(n) == LET ok == {j \in 1..Len(c.es) : n \in P[j]}
                            IN  [h \in 1..Cardinality(ok) |-> c.ud[CHOOSE j \in ok : Cardinality({x \in ok : x < j}) = h - 1]]
               IN  TLCEval([n \in 1..Len(d) |-> Of(n)])
Top(S) == IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : m <= n
WalkOk(c) ==
  \A k \in 1..Len(c.ws) :
    LET d == Decode(0, c.ws[k])
        st == Steps(c, d)
        hits == {n \in 1..Len(d) : st[n] # <<>>}
    IN  /\ c.walk[k] = st                                           \* user data at every prefix, by the macros
        /\ c.sim[k].ret = Bytes(d, Top(hits))                        \* the simulator: longest, and all that accepted
        /\ SetOf(c.sim[k].acc) = {<<n, Bytes(d, n), st[n]>> : n \in hits}
        /\ Len(c.sim[k].acc) = Cardinality(hits)

(* Match and scan of one expression, many times. Best: the number of characters of the    *)
(* longest match of the states S from the character behind k on, best so far at n         *)
RECURSIVE Best(_, _, _, _)
Best(S, d, k, n) == IF S = {} \/ k >= Len(d) THEN n
                    ELSE LET N == After(S, d[k + 1][1]) IN Best(N, d, k + 1, IF Accepts(N) THEN k + 1 ELSE n)
Longest(e, d) == Bytes(d, Best(Begin(e), d, 0, 0))
RECURSIVE ScanAt(_, _, _, _)
ScanAt(e, d, k, off) ==
  IF k >= Len(d) THEN <<0, 0>>
  ELSE LET m == Best(Begin(e), d, k, k)
       IN  IF m > k THEN <<off, Bytes(SubSeq(d, k + 1, m), m - k)>> ELSE ScanAt(e, d, k + 1, off + d[k + 1][2])
ReOk1(c, e, u) == LET d == Decode(IF u.enc = 1 THEN 1 ELSE 0, u.b)
                  IN  IF u.op = "m" THEN u.ret = Longest(e, d)
                      ELSE LET s == ScanAt(e, d, 0, 0) IN IF s[2] = 0 THEN u.ret[2] = 0 ELSE u.ret = s
ReOk(c) == LET e == Parse(c.e, {32, 9}).e IN Parse(c.e, {32, 9}).k = 2 \/ \A k \in 1..Len(c.use) : ReOk1(c, e, c.use[k])
ReWhy(c) == LET e == Parse(c.e, {32, 9}).e
                k == CHOOSE k \in 1..Len(c.use) : ~ReOk1(c, e, c.use[k])
            IN  <<c.use[k], LET d == Decode(IF c.use[k].enc = 1 THEN 1 ELSE 0, c.use[k].b) IN IF c.use[k].op = "m" THEN Longest(e, d) ELSE ScanAt(e, d, 0, 0)>>

(* A history of additions: each is accepted iff well-formed; a refused one changes nothing   *)
Kind(c, k) == Parse(c.h[k].e, SetOf(c.bl)).k
GoodUpTo(c, k) == {j \in 1..k : c.h[j].op = "add" /\ Kind(c, j) = 1}
Good1(c, k) == LET d == Decode(0, c.h[k].w)
               IN  UNION {{<<n, Bytes(d, n), c.h[j].ud>> : n \in Prefixes(Parse(c.h[j].e, SetOf(c.bl)).e, Chars(d)) \ {0}} : j \in GoodUpTo(c, k)}
HistStep(c, k) ==
  LET h == c.h[k]
      before == IF k = 1 THEN 0 ELSE c.h[k - 1].n
  IN  CASE h.op = "add" -> IF Kind(c, k) = 1 THEN h.ret >= 0 /\ h.n > before ELSE h.ret < 0 /\ h.n = before
        [] h.op = "regex" -> h.n = before /\ (h.ret = 1) = (Parse(h.e, {32, 9}).k = 1)
        [] h.op = "sim" -> h.n = before /\ SetOf(h.acc) = Good1(c, k) /\ Len(h.acc) = Cardinality(SetOf(h.acc))
HistOk(c) == \/ \E k \in 1..Len(c.h) : c.h[k].op \in {"add", "regex"} /\ (Kind(c, k) = 2 \/ Parse(c.h[k].e, {32, 9}).k = 2)
             \/ \A k \in 1..Len(c.h) : HistStep(c, k)
HistWhy(c) == LET k == CHOOSE k \in 1..Len(c.h) : ~HistStep(c, k) IN <<k, c.h[k], IF c.h[k].op = "sim" THEN <<Good1(c, k)>> ELSE <<Kind(c, k)>>>>

(* The search tool (T01): c.es the expressions, c.gs groups of inputs [n |-> name, b |-> bytes]; the  *)
(* groups come in order, the inputs of one group (a directory) in any order; c.out what was printed  *)
RECURSIVE AllFrom(_, _, _), LinesOf(_, _, _), Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
AllFrom(e, d, k) ==                       \* <<k, m>>: the characters k+1..m match
  IF k >= Len(d) THEN <<>>
  ELSE LET m == Best(Begin(e), d, k, k)
       IN  IF m > k THEN <<<<k, m>>>> \o AllFrom(e, d, m) ELSE AllFrom(e, d, k + 1)
LinesOf(b, p, q) == IF p > Len(b) THEN <<>>     \* the line begins at p, q is looked at
                    ELSE IF b[q] = 10 \/ q = Len(b) THEN <<SubSeq(b, p, q)>> \o LinesOf(b, q + 1, q + 1)
                    ELSE LinesOf(b, p, q + 1)
Found(e, mode, nm, b) ==
  IF mode = "l" THEN LET ls == LinesOf(b, 1, 1)
                         Of(l) == IF ScanAt(e, Decode(0, l), 0, 0)[2] > 0 THEN nm \o l ELSE <<>>
                     IN  Flat([j \in 1..Len(ls) |-> Of(ls[j])])
  ELSE LET d == TLCEval(Decode(0, b))
           hs == AllFrom(e, d, 0)
           Of(h) == nm \o SubSeq(b, Bytes(d, h[1]) + 1, Bytes(d, h[2])) \o <<10>>
       IN  Flat([j \in 1..Len(hs) |-> Of(hs[j])])
Orders(n) == {f \in [1..n -> 1..n] : \A x, y \in 1..n : f[x] = f[y] => x = y}
RECURSIVE Fits(_, _, _, _, _)
Fits(c, e, gs, j, out) ==
  IF j > Len(gs) THEN out = <<>>
  ELSE LET parts == TLCEval([k \in 1..Len(gs[j]) |-> Found(e, c.mode, IF c.names THEN gs[j][k].n \o <<58>> ELSE <<>>, gs[j][k].b)])
       IN  \E f \in Orders(Len(parts)) :
             LET w == Flat([k \in 1..Len(parts) |-> parts[f[k]]])
             IN  Len(w) <= Len(out) /\ SubSeq(out, 1, Len(w)) = w /\ Fits(c, e, gs, j + 1, SubSeq(out, Len(w) + 1, Len(out)))
GrepKind(c) == {Parse(c.es[j], {}).k : j \in 1..Len(c.es)}
GrepAst(c) == LET a == [j \in 1..Len(c.es) |-> Parse(c.es[j], {}).e] IN IF Len(a) = 1 THEN a[1] ELSE Alt(a)
GrepOk(c) == \/ 2 \in GrepKind(c)
             \/ IF 0 \in GrepKind(c) THEN c.out = <<>> /\ c.x # 0
                ELSE Fits(c, GrepAst(c), c.gs, 1, c.out)
GrepWhy(c) == IF 0 \in GrepKind(c) THEN <<>> ELSE <<[j \in 1..Len(c.gs) |-> [k \in 1..Len(c.gs[j]) |-> Found(GrepAst(c), c.mode, <<>>, c.gs[j][k].b)]]>>

Unspecified(c) == c.k \in {"nfa", "dfa", "walk"} /\ \E j \in 1..Len(c.es) : Parse(c.es[j], SetOf(c.bl)).k = 2
Ok(c) == CASE Unspecified(c) -> TRUE
           [] c.k = "nfa" -> NfaOk(c)
           [] c.k = "dfa" -> DfaOk(c)
           [] c.k = "walk" -> WalkOk(c)
           [] c.k = "re" -> ReOk(c)
           [] c.k = "hist" -> HistOk(c)
           [] c.k = "grep" -> GrepOk(c)
Why(c) == CASE c.k = "nfa" -> NfaWhy(c)
            [] c.k = "re" -> ReWhy(c)
            [] c.k = "hist" -> HistWhy(c)
            [] c.k = "grep" -> GrepWhy(c)
            [] OTHER -> <<>>
Verdict(n) == IF Ok(Cases[n]) THEN TRUE ELSE PrintT(<<"REJECT", n, "want", ToString(Why(Cases[n]))>>)
JInit == g \in 1..G /\ i = 0
JNext == LET n == (IF i = 0 THEN g ELSE i + G)
         IN  /\ n <= Len(Cases) /\ Verdict(n) /\ i' = n /\ g' = g
JSpec == JInit /\ [][JNext]_<<i, g>>
=============================================================================
