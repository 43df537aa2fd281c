------------------------------ MODULE RpaJudge -------------------------------
(* A case is a grammar (AST), an input and the answers the library gave for it;     *)
(* obs is a sequence of [op, ...] observations, all of which must be as required.   *)
EXTENDS RpaPeg, TLC, IOUtils, Json
CONSTANT G

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, g

Ctx0(c) == Ctx(c.items, c.inp, c.from, c.enc, c.ic)
Root(c) == IF c.root = 0 THEN Len(c.items) ELSE c.root

Err(c, x, r, e) ==  \* the error a failing call leaves
  IF r.ret >= 0 THEN e = <<0>>
  ELSE e = <<2003, r.ab[1], r.ab[2], r.ab[3]>>

Want(c) ==
  LET x == Ctx0(c)
      r == Apply(x, Root(c))
  IN  [ret |-> r.ret, recs |-> r.recs, ab |-> r.ab,
       scan |-> IF c.scan THEN ScanFrom(c.items, Root(c), c.inp, c.from, c.enc, c.ic) ELSE <<>>,
       all  |-> IF c.scan THEN ScanAll(c.items, Root(c), c.inp, 0, c.enc, c.ic) ELSE <<>>,
       nch  |-> Len(x.ch)]

(* whole records: with the place in the input and the name of the rule *)
Full(c, w) == [k \in 1..Len(w.recs) |-> w.recs[k] \o <<w.recs[k][4], c.items[w.recs[k][2] + 1].n>>]

(* The search tool (T02): o.gs groups of inputs [n |-> name, b |-> bytes]; the groups come in order, *)
(* the inputs of one group (a directory) in any order; o.nb the names of the items as bytes           *)
RECURSIVE Flat(_), Dec(_), LinesOf(_, _, _, _)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Seen(w) == IF (w < 32 /\ w \notin {9, 10, 13}) \/ (w >= 127 /\ w <= 255) THEN 0 ELSE w
Show(enc, bs) == LET d == Decode(IF enc = 2 THEN 2 ELSE 0, bs) IN Flat([k \in 1..Len(d) |-> Utf8Enc(Seen(d[k][1]))])
LinesOf(enc, b, p, q) ==                 \* the line begins at p, q is looked at
  LET u == IF enc = 2 THEN 2 ELSE 1
      z == q + u - 1
      nl == b[q] = 10 /\ (u = 2 => b[z] = 0)
  IN  IF p > Len(b) THEN <<>>
      ELSE IF z > Len(b) THEN <<SubSeq(b, p, Len(b))>>
      ELSE IF nl \/ z = Len(b) THEN <<SubSeq(b, p, z)>> \o LinesOf(enc, b, z + 1, z + 1)
      ELSE LinesOf(enc, b, p, z + 1)
ErrText(c, o, ab) ==
  LET k == CHOOSE k \in 1..Len(c.items) : c.items[k].k # "dir" /\ c.items[k].n = ab[1]
  IN  <<80, 97, 114, 115, 101, 32, 69, 114, 114, 111, 114, 58, 32, 67, 111, 100, 101, 58, 32, 50, 48, 48, 51>>
      \o (IF ab[2] = 0 THEN <<>> ELSE <<44, 32, 82, 117, 108, 101, 32, 85, 73, 68, 58, 32>> \o Dec(ab[2]))
      \o <<44, 32, 78, 97, 109, 101, 58, 32>> \o Show(0, o.nb[k])
      \o (IF ab[3] = 0 THEN <<>> ELSE <<32, 97, 116, 32, 79, 102, 102, 115, 101, 116, 58, 32>> \o Dec(ab[3])) \o <<10>>
(* <<what is printed, whether something was found>> *)
ToolOne(c, o, e) ==
  LET bom == Len(e.b) >= 2 /\ e.b[1] = 255 /\ e.b[2] = 254
      enc == IF o.force = "b" THEN 1 ELSE IF bom \/ o.force = "16" THEN 2 ELSE 0
      bs  == IF enc = 2 /\ bom THEN SubSeq(e.b, 3, Len(e.b)) ELSE e.b
      pre == IF e.n = <<>> THEN <<>> ELSE e.n \o <<58, 10>>
      part(off, n) == Show(enc, SubSeq(bs, off + 1, off + n))
  IN  IF o.mode = "scan" THEN
        LET a == ScanAll(c.items, c.root, bs, 0, enc, o.ic)
        IN  IF a = <<>> THEN <<<<>>, FALSE>> ELSE <<pre \o Flat([k \in 1..Len(a) |-> part(a[k][1], a[k][2]) \o <<10>>]), TRUE>>
      ELSE IF o.mode = "lines" THEN
        LET ls == LinesOf(enc, bs, 1, 1)
            hit == TLCEval([k \in 1..Len(ls) |-> ScanFrom(c.items, c.root, ls[k], 0, enc, o.ic)[1] > 0])
        IN  IF \A k \in 1..Len(ls) : ~hit[k] THEN <<<<>>, FALSE>>
            ELSE <<pre \o Flat([k \in 1..Len(ls) |-> IF hit[k] THEN Show(enc, ls[k]) ELSE <<>>]), TRUE>>
      ELSE
        LET w == TLCEval(Apply(Ctx(c.items, bs, 0, enc, o.ic), c.root))
            ends == SelectSeq(w.recs, LAMBDA r : r[1] = 2)
        IN  CASE o.mode = "match" -> <<IF w.ret > 0 THEN pre \o part(0, w.ret) \o <<10>> ELSE <<>>, w.ret > 0>>
              [] o.mode = "ast"   -> <<<<>>, w.ret > 0>>
              [] o.mode \in {"parse", "noprod"} /\ w.ret < 0 -> <<ErrText(c, o, w.ab), FALSE>>
              [] o.mode = "noprod" /\ w.ret >= 0 -> <<Flat([k \in 1..Len(ends) |-> part(ends[k][4], ends[k][5])]), w.ret > 0>>
              [] o.mode = "parse" /\ w.ret >= 0 ->
                   <<Flat([k \in 1..Len(ends) |->
                       Show(0, o.nb[ends[k][2] + 1]) \o <<32, 40>> \o Dec(ends[k][4]) \o <<44, 32>> \o Dec(ends[k][5]) \o <<41, 58, 32>>
                       \o part(ends[k][4], ends[k][5]) \o <<10>>]), w.ret > 0>>
Orders(n) == {f \in [1..n -> 1..n] : \A x, y \in 1..n : f[x] = f[y] => x = y}
RECURSIVE Fits(_, _, _)
Fits(ps, j, out) ==
  IF j > Len(ps) THEN out = <<>>
  ELSE \E f \in Orders(Len(ps[j])) :
         LET w == Flat([k \in 1..Len(ps[j]) |-> ps[j][f[k]][1]])
         IN  Len(w) <= Len(out) /\ SubSeq(out, 1, Len(w)) = w /\ Fits(ps, j + 1, SubSeq(out, Len(w) + 1, Len(out)))
ToolWant(c, o) == [j \in 1..Len(o.gs) |-> [k \in 1..Len(o.gs[j]) |-> ToolOne(c, o, o.gs[j][k])]]
ToolOk(c, o) ==
  LET ps == TLCEval(ToolWant(c, o))
      hit == \E j \in 1..Len(ps) : \E k \in 1..Len(ps[j]) : ps[j][k][2]
  IN  /\ o.x = (IF hit THEN 0 ELSE 1)
      /\ IF o.quiet THEN o.out = <<>> ELSE o.mode = "ast" \/ Fits(ps, 1, o.out)

OkObs(c, w, o) ==
  CASE o.op = "match" -> o.v = w.ret
    [] o.op = "lim"   -> (o.v = w.ret /\ (w.ret >= 0 => o.code = 0)) \/ (o.v = -1 /\ o.code = 2001)   \* a small stack
    [] o.op = "out"   -> o.v = -1 /\ o.code = 2004                                                    \* not within the input
    [] o.op = "abort" -> o.v = 0                                                                     \* nothing is running
    [] o.op = "exec"  -> LET x == Ctx0(c) IN (w.ret < 0 /\ o.v < 0) \/ (w.ret >= 0 /\ o.v >= 0 /\ x.of[o.v + 1] - x.of[1] = w.ret)
    [] o.op = "parse" -> o.v = w.ret /\ (w.ret >= 0 => o.recs = w.recs)
    [] o.op = "tree"  -> o.v = w.ret /\ (w.ret >= 0 => o.recs = Full(c, w))
    [] o.op = "more"  -> o.v = w.ret /\ (w.ret >= 0 => o.recs = Full(c, w) \o Full(c, w))     \* appended to the records of the run before
    [] o.op = "err"   -> IF w.ret >= 0 THEN o.code = 0
                         ELSE o.code = 2003 /\ o.name = w.ab[1] /\ o.uid = w.ab[2] /\ o.off = w.ab[3]
    [] o.op = "scan"  -> o.v = w.scan
    [] o.op = "all"   -> o.v = w.all /\ o.end = 0
    [] o.op = "tool"  -> ToolOk(c, o)
    [] o.op = "notool" -> o.x = 2                                                                    \* not a grammar

Verdict(n) ==
  LET c == Cases[n]
      w == Want(c)
      bad == {k \in 1..Len(c.obs) : ~OkObs(c, w, c.obs[k])}
  IN  IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", n, "want", ToJson(w), "bad", ToJson([k \in bad |-> c.obs[k]])>>)

JInit == g \in 1..G /\ i = 0
JNext == LET n == (IF i = 0 THEN g ELSE i + G)
         IN  /\ n <= Len(Cases) /\ Verdict(n) /\ i' = n /\ g' = g
JSpec == JInit /\ [][JNext]_<<i, g>>
=============================================================================
