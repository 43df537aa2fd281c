------------------------------- MODULE RpaText -------------------------------
(* Judges what a database made of grammar texts: each load accepted or refused with *)
(* the place of the fault, the rule table after closing, the outcome of compiling,  *)
(* and (for grammars without left recursion) matches.                               *)
EXTENDS RpaMeta, TLC, IOUtils, Json
CONSTANT G

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, g

CharsOf(b) == [k \in 1..Len(Decode(0, b)) |-> Decode(0, b)[k][1]]
(* one text: where it stops being a grammar (in bytes), and its items with their bytes *)
ReadBytes(b) ==
  LET d == Decode(0, b)
      t == [k \in 1..Len(d) |-> d[k][1]]
      o == Offsets(d, 1, 0)
      r == Read(t)
  IN  [end |-> o[r[1]], ok |-> o[r[1]] = Len(b),
       items |-> [k \in 1..Len(r[2]) |->
                   LET it == r[2][k] IN [k |-> it.k, n |-> it.n, txt |-> SubSeq(b, o[it.f] + 1, o[it.e])]
                                        @@ (IF it.k = "dir" THEN [d |-> it.d, t |-> it.t, u |-> it.u] ELSE [b |-> it.b])]]
LineOf(b, off) == 1 + Cardinality({k \in 1..Len(b) : k <= off + 1 /\ b[k] = 10})

RECURSIVE Loaded(_, _, _)
Loaded(rd, k, acc) == IF k > Len(rd) THEN acc ELSE Loaded(rd, k + 1, IF rd[k].ok THEN acc \o rd[k].items ELSE acc)

OkLoad(l, r) ==
  IF r.ok THEN l.ret = Len(l.b)
  ELSE l.ret < 0 /\ l.code = 1006 /\ l.off = r.end /\ l.line = LineOf(l.b, r.end)

(* names and texts are handed out as C strings *)
CStr(b) == LET z == {k \in 1..Len(b) : b[k] = 0} IN IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE m \in z : \A k \in z : m <= k) - 1)
NameOf(it) == IF it.k = "rule" THEN it.n ELSE it.txt
LookupAny(items, n) ==
  LET S == {k \in 1..Len(items) : NameOf(items[k]) = n}
  IN  IF S = {} THEN -1 ELSE (CHOOSE m \in S : \A k \in S : k <= m) - 1
OkTable(c, items) ==
  /\ Len(c.table) = Len(items)
  /\ \A k \in 1..Len(items) : c.table[k] = <<k - 1, CStr(NameOf(items[k])), Len(items[k].txt), Len(items[k].txt), CStr(items[k].txt)>>
  /\ c.back = [k \in 1..Len(items) |-> Len(items) - k]
  /\ c.first = (IF items = <<>> THEN -1 ELSE 0) /\ c.last = Len(items) - 1
  /\ \A k \in 1..Len(c.looks) : c.looks[k][2] = LookupAny(items, c.looks[k][1])

OkComp(c, items) ==
  LET u == Unresolved(items)
  IN  IF u = {} THEN c.comp[1] = 0 ELSE c.comp[1] < 0 /\ c.comp[2] = 1007 /\ c.comp[3] \in u

(* an anonymous rule spelled like a name in use: which of them the name means is not defined *)
Ambiguous(items) ==
  \E k, m \in 1..Len(items) :
    /\ items[k].k = "anon" /\ items[m].k # "anon"
    /\ items[k].txt = (IF items[m].k = "rule" THEN items[m].n ELSE items[m].t)
OkRun(items, r) ==
  LET x == Ctx(items, r.inp, 0, 0, FALSE)
      a == Apply(x, r.root + 1)
  IN  x.lr # {} \/ Ambiguous(items) \/ (r.ret = a.ret /\ (a.ret >= 0 => r.recs = a.recs))

(* Texts "a ::= ((..x..))" nested d deep: a text that is nested too deep for the parser is   *)
(* refused with an error code; it is not required to be read, so only its brackets count.   *)
DeepLimit == 90
Count(b, ch) == Cardinality({k \in 1..Len(b) : b[k] = ch})
OkDeep(c) ==
  /\ \A k \in 1..Len(c.loads) :
       LET l == c.loads[k]
           d == Count(l.b, 40)
           good == Count(l.b, 41) = d
       IN  \/ good /\ l.ret = Len(l.b)
           \/ ~good /\ l.ret < 0 /\ l.code = 1006
           \/ d > DeepLimit /\ l.ret < 0 /\ l.code = 2001
  /\ IF \E k \in 1..Len(c.loads) : Count(c.loads[k].b, 60) > 0 THEN c.comp[1] < 0 /\ c.comp[2] = 1007 ELSE c.comp[1] = 0
  /\ (c.comp[1] = 0 /\ c.loads[1].ret >= 0) => \A k \in 1..Len(c.runs) : c.runs[k].ret = Len(c.runs[k].inp)    \* inputs that the rule matches as a whole

VerdictDeep(n) == IF OkDeep(Cases[n]) THEN TRUE ELSE PrintT(<<"REJECT", n, "deep">>)

VerdictText(n) ==
  LET c == Cases[n]
      rd == [k \in 1..Len(c.loads) |-> ReadBytes(c.loads[k].b)]
      items == Loaded(rd, 1, <<>>)
      badl == {k \in 1..Len(rd) : ~OkLoad(c.loads[k], rd[k])}
      why == IF badl # {} THEN <<"load", badl, [k \in 1..Len(rd) |-> <<rd[k].ok, rd[k].end>>]>>
             ELSE IF ~OkTable(c, items) THEN <<"table", items>>
             ELSE IF ~OkComp(c, items) THEN <<"compile", Unresolved(items)>>
             ELSE IF c.crash THEN (IF LeftRec(items) # {} THEN <<>> ELSE <<"crash", items>>)
             ELSE IF Unresolved(items) = {} /\ \E k \in 1..Len(c.runs) : ~OkRun(items, c.runs[k])
                  THEN <<"run", {<<k, Apply(Ctx(items, c.runs[k].inp, 0, 0, FALSE), c.runs[k].root + 1)>> : k \in {m \in 1..Len(c.runs) : ~OkRun(items, c.runs[m])}}>>
             ELSE <<>>
  IN  IF why = <<>> THEN TRUE ELSE PrintT(<<"REJECT", n, why>>)

Verdict(n) == IF Cases[n].deep THEN VerdictDeep(n) ELSE VerdictText(n)

JInit == g \in 1..G /\ i = 0
JNext == LET n == (IF i = 0 THEN g ELSE i + G)
         IN  /\ n <= Len(Cases) /\ Verdict(n) /\ i' = n /\ g' = g
JSpec == JInit /\ [][JNext]_<<i, g>>
=============================================================================
