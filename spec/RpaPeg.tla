------------------------------- MODULE RpaPeg --------------------------------
(* The meaning of a grammar: what a rule matches at a position, which records the  *)
(* match leaves, and when the whole parse is aborted.                              *)
(*                                                                                 *)
(* A grammar is the sequence of its items in text order:                           *)
(*   [k |-> "rule", n |-> name, b |-> expression]        named rule                *)
(*   [k |-> "anon", n |-> text, b |-> expression]        anonymous rule            *)
(*   [k |-> "dir",  n |-> text, d |-> directive, t |-> target name, u |-> number]  *)
(* Expressions (q is the quantifier "", "?", "*" or "+"):                          *)
(*   chr c | any | spc c | cls r | ref n | grp e  (items, carry q)                 *)
(*   not e | seq es | min rs l | alt es                                            *)
EXTENDS Utf, SequencesExt

Fail      == [s |-> -1, r |-> <<>>]
Ok(n, r)  == [s |-> n, r |-> r]
Aborted(j, i) == [s |-> -2, r |-> <<>>, j |-> j, i |-> i]
IsAbort(v) == v.s = -2

(* ------------------------------------------------ preferences (directives) --- *)
(* The preferences in force for item k: directives above it, in text order.        *)
DefPref == [emit |-> TRUE, uid |-> 0, ab |-> FALSE]
RECURSIVE PrefFold(_, _, _, _, _)
PrefFold(items, k, upto, name, p) ==
  IF k > upto THEN p
  ELSE LET it == items[k]
           p1 == IF it.k # "dir" THEN p
                 ELSE CASE it.d = "emitall"  -> [p EXCEPT !.emit = TRUE]
                        [] it.d = "emitnone" -> [p EXCEPT !.emit = FALSE]
                        [] it.d = "emit"   /\ it.t = name -> [p EXCEPT !.emit = TRUE]
                        [] it.d = "noemit" /\ it.t = name -> [p EXCEPT !.emit = FALSE]
                        [] it.d = "emitid" /\ it.t = name -> [p EXCEPT !.emit = TRUE, !.uid = it.u]
                        [] it.d = "abort"  /\ it.t = name -> [p EXCEPT !.ab = TRUE]
                        [] OTHER -> p
       IN PrefFold(items, k + 1, upto, name, p1)
Pref(items, k) == PrefFold(items, 1, k - 1, items[k].n, DefPref)

(* the item a name refers to: the latest definition; 0 if there is none *)
Lookup(items, name) ==
  LET S == {k \in 1..Len(items) : items[k].k = "rule" /\ items[k].n = name}
  IN  IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m

(* ------------------------------------------------------- character tests ------ *)
EqC(x, w, c) == w = c \/ (x.ic /\ Partner(w) = c)
InR(w, r) == In(w, r[1], r[2]) \/ In(w, r[2], r[1])
InCls(x, w, rs) == \E k \in 1..Len(rs) : InR(w, rs[k]) \/ (x.ic /\ InR(Partner(w), rs[k]))

Spc(c) == c    \* special characters (tab, newline ...) are compared as they are

(* ------------------------------------------------- which rules are left recursive *)
RECURSIVE LeftRefs(_), Nullable(_), LeftSeq(_, _)
Nullable(e) ==      \* may succeed without consuming (rules never do)
  CASE e.k = "seq" -> \A k \in 1..Len(e.es) : Nullable(e.es[k])
    [] e.k = "alt" -> FALSE
    [] e.k = "min" -> Nullable(e.l)
    [] e.k = "not" -> FALSE
    [] e.q \in {"?", "*"} -> TRUE
    [] e.k = "grp" -> Nullable(e.e)
    [] OTHER -> FALSE
LeftSeq(es, k) ==
  IF k > Len(es) THEN {}
  ELSE LeftRefs(es[k]) \cup (IF Nullable(es[k]) THEN LeftSeq(es, k + 1) ELSE {})
LeftRefs(e) ==      \* names tried at the place where e starts
  CASE e.k = "seq" -> LeftSeq(e.es, 1)
    [] e.k = "alt" -> UNION {LeftRefs(e.es[k]) : k \in 1..Len(e.es)}
    [] e.k = "min" -> LeftRefs(e.l) \cup UNION {LeftRefs(e.rs[k]) : k \in 1..Len(e.rs)}
    [] e.k = "not" -> LeftRefs(e.e)
    [] e.k = "grp" -> LeftRefs(e.e)
    [] e.k = "ref" -> {e.n}
    [] OTHER -> {}
RECURSIVE Reach(_, _)
Reach(items, S) ==
  LET T == S \cup UNION {LeftRefs(items[j].b) : j \in {m \in 1..Len(items) : items[m].k = "rule" /\ items[m].n \in S}}
  IN  IF T = S THEN S ELSE Reach(items, T)
LeftRec(items) ==
  {j \in 1..Len(items) : items[j].k = "rule" /\ items[j].n \in Reach(items, LeftRefs(items[j].b))}

(* --------------------------------------------------------------- matching ----- *)
(* x: [ch (decoded input), items, ic, of (byte offset of each character position)]  *)
(* Position i: number of characters in front.  L: left-recursive applications under *)
(* way, each <<item, position, seed>>.                                              *)
Rec(t, x, j, i, n) == <<t, j - 1, IF x.pf[j].uid = 0 THEN 0 ELSE x.pf[j].uid, x.of[i + 1], x.of[i + n + 1] - x.of[i + 1]>>

RECURSIVE Ev(_, _, _, _), EvItem(_, _, _, _), EvSeq(_, _, _, _, _, _, _), EvAlt(_, _, _, _, _), EvLoop(_, _, _, _, _, _),
          EvRule(_, _, _, _), Grow(_, _, _, _, _), EvNeg(_, _, _, _, _)

EvSeq(x, es, k, i, n, r, L) ==
  IF k > Len(es) THEN Ok(n, r)
  ELSE LET v == Ev(x, es[k], i + n, L)
       IN  IF v.s < 0 THEN v ELSE EvSeq(x, es, k + 1, i, n + v.s, r \o v.r, L)

(* ordered choice: the first alternative that consumes something.  While a left     *)
(* recursive rule grows, only the alternatives leading to it count (where there are *)
(* any): those that do not are what it started from.                                *)
Heads(x, i, L) == {x.items[L[k][1]].n : k \in {m \in 1..Len(L) : L[m][2] = i /\ L[m][3].s > 0}}
Leads(x, e, H) == Reach(x.items, LeftRefs(e)) \cap H # {}
Pick(x, es, i, L) ==
  LET H == Heads(x, i, L)
  IN  IF H = {} THEN es
      ELSE LET on == {k \in 1..Len(es) : Leads(x, es[k], H)}
           IN  IF on = {} THEN es ELSE SelectSeq(es, LAMBDA e : Leads(x, e, H))
EvAlt(x, es, k, i, L) ==
  IF k > Len(es) THEN Fail
  ELSE LET v == Ev(x, es[k], i, L)
       IN  IF IsAbort(v) \/ v.s > 0 THEN v ELSE EvAlt(x, es, k + 1, i, L)

EvNeg(x, rs, k, i, L) ==      \* is one of the excluded expressions there?
  IF k > Len(rs) THEN Fail
  ELSE LET v == Ev(x, rs[k], i, L)
       IN  IF IsAbort(v) \/ v.s > 0 THEN v ELSE EvNeg(x, rs, k + 1, i, L)

EvLoop(x, e, i, n, r, L) ==
  LET v == EvItem(x, e, i + n, L)
  IN  IF IsAbort(v) THEN v
      ELSE IF v.s <= 0 THEN Ok(n, r)
      ELSE EvLoop(x, e, i, n + v.s, r \o v.r, L)

EvItem(x, e, i, L) ==         \* an item without its quantifier
  LET more == i < Len(x.ch)
      w == x.ch[i + 1][1]
      B(b) == IF more /\ b THEN Ok(1, <<>>) ELSE Fail
  IN  CASE e.k = "chr" -> B(EqC(x, w, e.c))
        [] e.k = "any" -> B(TRUE)
        [] e.k = "spc" -> B(w = Spc(e.c))
        [] e.k = "cls" -> B(InCls(x, w, e.r))
        [] e.k = "grp" -> Ev(x, e.e, i, L)
        [] e.k = "ref" -> EvRule(x, Lookup(x.items, e.n), i, L)

Ev(x, e, i, L) ==
  CASE e.k = "seq" -> EvSeq(x, e.es, 1, i, 0, <<>>, L)
    [] e.k = "alt" -> EvAlt(x, Pick(x, e.es, i, L), 1, i, L)
    [] e.k = "min" -> LET v == EvNeg(x, e.rs, 1, i, L)
                      IN  IF IsAbort(v) THEN v ELSE IF v.s > 0 THEN Fail ELSE Ev(x, e.l, i, L)
    [] e.k = "not" -> LET v == Ev(x, e.e, i, L)
                      IN  IF IsAbort(v) THEN v
                          ELSE IF v.s >= 0 \/ i >= Len(x.ch) THEN Fail ELSE Ok(1, <<>>)
    [] e.q = ""  -> EvItem(x, e, i, L)
    [] e.q = "?" -> LET v == EvItem(x, e, i, L)
                    IN  IF IsAbort(v) \/ v.s > 0 THEN v ELSE Ok(0, <<>>)
    [] e.q = "*" -> EvLoop(x, e, i, 0, <<>>, L)
    [] e.q = "+" -> LET v == EvLoop(x, e, i, 0, <<>>, L)
                    IN  IF v.s = 0 THEN Fail ELSE v

(* one application of a rule; consuming nothing is a failure *)
Wrap(x, j, i, v) ==
  IF IsAbort(v) THEN v
  ELSE IF v.s <= 0 THEN (IF x.pf[j].ab THEN Aborted(j, i) ELSE Fail)
  ELSE IF x.items[j].k = "rule" /\ x.pf[j].emit
       THEN Ok(v.s, <<Rec(1, x, j, i, v.s)>> \o v.r \o <<Rec(2, x, j, i, v.s)>>)
       ELSE v

(* Left recursion: the result so far (the seed) stands for the recursive use at     *)
(* the same place; the application is repeated as long as it gets longer.           *)
Grow(x, j, i, seed, L) ==
  LET e == Ev(x, x.items[j].b, i, Append(L, <<j, i, seed>>))
      v == IF seed.s > 0 /\ e.s \in {-1, 0} THEN seed     \* no further step; not a failure of the rule
           ELSE Wrap(x, j, i, e)
  IN  IF IsAbort(v) THEN v
      ELSE IF v.s > seed.s THEN Grow(x, j, i, v, L) ELSE seed

EvRule(x, j, i, L) ==
  LET S == {k \in 1..Len(L) : L[k][1] = j /\ L[k][2] = i}
  IN  IF S # {} THEN L[CHOOSE k \in S : TRUE][3]
      ELSE IF j \in x.lr THEN Grow(x, j, i, Fail, L)
      ELSE Wrap(x, j, i, Ev(x, x.items[j].b, i, L))

(* ------------------------------------------------------------- a whole call ---- *)
RECURSIVE Offsets(_, _, _)
Offsets(ch, k, o) == IF k > Len(ch) THEN <<o>> ELSE <<o>> \o Offsets(ch, k + 1, o + ch[k][2])

(* context for input bytes bs, parsed from byte position from, in encoding enc *)
Ctx(items, bs, from, enc, ic) ==
  LET ch == Decode(enc, SubSeq(bs, from + 1, Len(bs)))
  IN [ch |-> ch, items |-> items, ic |-> ic, of |-> Offsets(ch, 1, from),
      pf |-> [k \in 1..Len(items) |-> Pref(items, k)], lr |-> LeftRec(items)]

(* the outcome of applying item j at the start of the context *)
Apply(x, j) ==
  LET v == EvRule(x, j, 0, <<>>)
  IN  IF IsAbort(v) THEN [ret |-> -1, recs |-> <<>>, ab |-> <<x.items[v.j].n, x.pf[v.j].uid, x.of[v.i + 1]>>]
      ELSE IF v.s <= 0 THEN [ret |-> 0, recs |-> <<>>, ab |-> <<>>]
      ELSE [ret |-> x.of[v.s + 1] - x.of[1], recs |-> v.r, ab |-> <<>>]

(* scanning: the first character boundary where the rule matches; an aborted        *)
(* attempt counts as no match there.  <<size, place>> or <<0, -1>>                   *)
RECURSIVE ScanFrom(_, _, _, _, _, _)
ScanFrom(items, j, bs, from, enc, ic) ==
  IF from >= Len(bs) THEN <<0, -1>>
  ELSE LET x == Ctx(items, bs, from, enc, ic)
           a == Apply(x, j)
       IN  IF a.ret > 0 THEN <<a.ret, from>>
           ELSE ScanFrom(items, j, bs, from + (IF a.ret < 0 THEN 1 ELSE x.ch[1][2]), enc, ic)

RECURSIVE ScanAll(_, _, _, _, _, _)
ScanAll(items, j, bs, from, enc, ic) ==
  LET m == ScanFrom(items, j, bs, from, enc, ic)
  IN  IF m[1] = 0 THEN <<>> ELSE <<<<m[2], m[1]>>>> \o ScanAll(items, j, bs, m[2] + m[1], enc, ic)
=============================================================================
