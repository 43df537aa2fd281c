-------------------------------- MODULE RpaTree --------------------------------
(* The records of a parse as an ordered forest: a record array is a word of start (1)  *)
(* and end (2) records, properly nested. Every navigation function is defined from the *)
(* nesting alone; user types are the only thing that changes.                          *)
(* A case is a record array and the calls made on it, one after the other.             *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC, IOUtils, Json
CONSTANT G

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, g

(* ---- the forest ---- *)
T(r, k) == r[k + 1][1]                                  \* records are numbered from 0
In(r, k) == k >= 0 /\ k < Len(r)
RECURSIVE Bal(_, _, _)                                  \* starts minus ends in a..b
Bal(r, a, b) == IF a > b THEN 0 ELSE (IF T(r, a) = 1 THEN 1 ELSE -1) + Bal(r, a + 1, b)
(* per array: the partner of each record and the record that starts its parent's branch; *)
(* a stack of open starts is carried along                                               *)
RECURSIVE Nest(_, _, _, _, _)
Nest(r, k, open, end, par) ==                           \* end: start -> end record; par: start -> start of the parent (or -1)
  IF k = Len(r) THEN <<end, par>>
  ELSE IF T(r, k) = 1
       THEN Nest(r, k + 1, <<k>> \o open, end, par @@ (k :> (IF open = <<>> THEN -1 ELSE open[1])))
       ELSE Nest(r, k + 1, Tail(open), end @@ (open[1] :> k), par)
Forest(r) == IF r = <<>> THEN [end |-> <<>>, par |-> <<>>, start |-> <<>>, nodes |-> {}]
             ELSE LET n == Nest(r, 0, <<>>, <<>>, <<>>)
                  IN  [end |-> n[1], par |-> n[2], nodes |-> DOMAIN n[1],
                       start |-> [k \in 0..Len(r) - 1 |-> IF T(r, k) = 1 THEN k ELSE CHOOSE s \in DOMAIN n[1] : n[1][s] = k]]

Side(f, s, t) == IF s = -1 THEN -1 ELSE IF t = 1 THEN s ELSE f.end[s]
MinOf(S) == IF S = {} THEN -1 ELSE CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == IF S = {} THEN -1 ELSE CHOOSE m \in S : \A x \in S : m >= x
Kids(f, s) == {c \in f.nodes : f.par[c] = s}
Sibs(f, s) == {c \in f.nodes : f.par[c] = f.par[s]}
First(f, s) == MinOf(Kids(f, s))
Last(f, s) == MaxOf(Kids(f, s))
Next(f, s) == MinOf({c \in Sibs(f, s) : c > s})
Prev(f, s) == MaxOf({c \in Sibs(f, s) : c < s})
Row(r, f, k) ==
  IF ~In(r, k) THEN [m \in 1..13 |-> -1]
  ELSE LET s == f.start[k]
           P(x) == <<Side(f, x, 1), Side(f, x, 2)>>
       IN  P(s) \o P(First(f, s)) \o P(Last(f, s)) \o P(Next(f, s)) \o P(Prev(f, s)) \o P(f.par[s]) \o <<f.end[s] - s + 1>>

Branch(r, f, k) == SubSeq(r, f.start[k] + 1, f.end[f.start[k]] + 1)
SetOp(old, v, op) == CASE op = 1 -> old | v [] op = 2 -> old ^^ v [] op = 3 -> old & v [] OTHER -> v
SetType(r, f, k, v, op) ==
  IF ~In(r, k) THEN r
  ELSE LET s == f.start[k] IN [m \in 1..Len(r) |-> IF m = s + 1 \/ m = f.end[s] + 1 THEN [r[m] EXCEPT ![7] = SetOp(@, v, op)] ELSE r[m]]
Moved(r, d, s, n) == [m \in 1..Len(r) |-> IF m > d /\ m <= d + n THEN r[s + (m - d)] ELSE r[m]]

(* ---- one call ---- *)
Ok(r, f, o) ==
  CASE o.op = "nav"  -> /\ Len(o.v) = Len(r) + 2
                        /\ \A k \in -1..Len(r) : o.v[k + 2] = Row(r, f, k)
    [] o.op = "walk" -> LET s == f.start[o.k]
                            e == f.end[s]
                        IN  o.rc = 0 /\ o.v = [m \in 1..e - s + 1 |-> s + m - 1]
    [] o.op = "copy" -> o.rc = Len(Branch(r, f, o.k)) /\ o.recs = Branch(r, f, o.k)
    [] o.op = "move" -> IF o.d + o.n > Len(r) THEN o.rc = -1 /\ o.recs = r ELSE o.rc = 0 /\ o.recs = Moved(r, o.d, o.s, o.n)
    [] o.op = "set"  -> o.recs = SetType(r, f, o.k, o.v, o.how)
    [] o.op = "type" -> o.v = (IF In(r, o.k) THEN r[f.start[o.k] + 1][7] ELSE -1)
    [] o.op = "uid"  -> o.v = (IF In(r, o.k) THEN r[f.start[o.k] + 1][3] ELSE -1)
    [] o.op = "recs" -> o.recs = r
After(r, f, o) == IF o.op = "set" THEN SetType(r, f, o.k, o.v, o.how) ELSE r

RECURSIVE Run(_, _, _, _)
Run(r, f, ops, k) ==
  IF k > Len(ops) THEN 0
  ELSE IF ~Ok(r, f, ops[k]) THEN k
  ELSE Run(After(r, f, ops[k]), f, ops, k + 1)

Proper(r) == \A k \in 0..Len(r) - 1 : T(r, k) \in {1, 2}
Verdict(n) ==
  LET c == Cases[n]
      k == Run(c.recs, Forest(c.recs), c.ops, 1)
  IN  IF Proper(c.recs) /\ k = 0 THEN TRUE
      ELSE PrintT(<<"REJECT", n, "call", k, IF k > 0 THEN ToJson(c.ops[k]) ELSE "">>)

JInit == g \in 1..G /\ i = 0
JNext == LET n == (IF i = 0 THEN g ELSE i + G)
         IN  /\ n <= Len(Cases) /\ Verdict(n) /\ i' = n /\ g' = g
JSpec == JInit /\ [][JNext]_<<i, g>>
=============================================================================
