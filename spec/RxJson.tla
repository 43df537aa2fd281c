------------------------------- MODULE RxJson -------------------------------
(* JSON over bytes: what a text denotes. A position is a 1-based index into the text t.    *)
(*                                                                                         *)
(* Values are records [t, s, m]: t the type, s bytes of a string / digits of an integer /   *)
(* canonical decimal of a real / 1 or 0 of a boolean, m the members. A member is            *)
(* [k |-> key, v |-> value]; the elements of an array have an empty key. Objects are        *)
(* maps: members sorted by key, the last of equal keys counts.                             *)
EXTENDS Integers, Sequences
Leaf(t, s) == [t |-> t, s |-> s, m |-> <<>>]
Null == Leaf("null", <<>>)

At(t, p) == IF p >= 1 /\ p <= Len(t) THEN t[p] ELSE -1
RECURSIVE Ws(_, _)
Ws(t, p) == IF At(t, p) \in {9, 10, 13, 32} THEN Ws(t, p + 1) ELSE p
Digit(b) == b >= 48 /\ b <= 57
RECURSIVE Digits(_, _)                     \* the position behind the digits that start at p
Digits(t, p) == IF Digit(At(t, p)) THEN Digits(t, p + 1) ELSE p
Starts(t, p, w) == p + Len(w) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(w) - 1) = w
HexVal(b) == IF Digit(b) THEN b - 48 ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE IF b >= 97 /\ b <= 102 THEN b - 87 ELSE -1
IsHex4(t, p) == \A j \in 0..3 : At(t, p + j) # -1 /\ HexVal(At(t, p + j)) >= 0
Hex4(t, p) == ((HexVal(t[p]) * 16 + HexVal(t[p + 1])) * 16 + HexVal(t[p + 2])) * 16 + HexVal(t[p + 3])
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Esc == [x \in {34, 92, 47, 98, 102, 110, 114, 116} |->
          CASE x = 34 -> 34 [] x = 92 -> 92 [] x = 47 -> 47 [] x = 98 -> 8 [] x = 102 -> 12 [] x = 110 -> 10 [] x = 114 -> 13 [] x = 116 -> 9]
(* The characters of a string from p on (behind the quote): [p |-> behind the closing quote *)
(* or 0, s |-> bytes].                                                                      *)
RECURSIVE Chars(_, _, _)
Chars(t, p, acc) ==
  LET b == At(t, p)
  IN  IF b < 32 THEN [p |-> 0, s |-> acc]                              \* the end, or a control character
      ELSE IF b = 34 THEN [p |-> p + 1, s |-> acc]
      ELSE IF b # 92 THEN Chars(t, p + 1, Append(acc, b))
      ELSE IF At(t, p + 1) \in DOMAIN Esc THEN Chars(t, p + 2, Append(acc, Esc[At(t, p + 1)]))
      ELSE IF At(t, p + 1) # 117 \/ ~IsHex4(t, p + 2) THEN [p |-> 0, s |-> acc]
      ELSE LET h == Hex4(t, p + 2)
               pair == h \in 55296..56319 /\ At(t, p + 6) = 92 /\ At(t, p + 7) = 117 /\ IsHex4(t, p + 8) /\ Hex4(t, p + 8) \in 56320..57343
           IN  IF pair THEN Chars(t, p + 12, acc \o Utf8(65536 + (h - 55296) * 1024 + (Hex4(t, p + 8) - 56320)))
               ELSE Chars(t, p + 6, acc \o Utf8(h))
(* Numbers: the position behind the longest number at p (0: none) and whether it is real    *)
Number(t, p) ==
  LET a == IF At(t, p) = 45 THEN p + 1 ELSE p
      b == IF At(t, a) = 48 THEN a + 1 ELSE Digits(t, a)
      f == IF At(t, b) = 46 /\ Digit(At(t, b + 1)) THEN Digits(t, b + 1) ELSE b
      e0 == IF At(t, f) \in {69, 101} THEN (IF At(t, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1) ELSE 0
      e == IF e0 # 0 /\ Digit(At(t, e0)) THEN Digits(t, e0) ELSE f
  IN  IF b = a THEN [p |-> 0, real |-> FALSE] ELSE [p |-> e, real |-> e # b, b |-> b, f |-> f]
RECURSIVE Num(_)
Num(ds) == IF ds = <<>> THEN 0 ELSE IF Len(ds) > 6 THEN 999999 ELSE 10 * Num(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)] - 48
RECURSIVE DropLead(_)
DropLead(ds) == IF ds # <<>> /\ ds[1] = 48 THEN DropLead(Tail(ds)) ELSE ds
RECURSIVE DropTrail(_)
DropTrail(ds) == IF ds # <<>> /\ ds[Len(ds)] = 48 THEN DropTrail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
(* the canonical decimal of digits ds with the decimal point behind the first n of them:     *)
(* <<1 if negative, exponent>> \o digits, the value being 0.digits * 10^exponent             *)
Canon(neg, ds, n) == LET l == DropLead(ds)
                         d == DropTrail(l)
                     IN  IF d = <<>> THEN <<0, 0>> ELSE <<neg, n - (Len(ds) - Len(l))>> \o d
RealOf(t, p, r) ==
  LET neg == IF At(t, p) = 45 THEN 1 ELSE 0
      ip == SubSeq(t, p + neg, r.b - 1)
      fp == IF r.f > r.b THEN SubSeq(t, r.b + 1, r.f - 1) ELSE <<>>
      xs == IF r.p > r.f THEN r.f + 1 ELSE 0
      sg == IF xs # 0 /\ At(t, xs) = 45 THEN -1 ELSE 1
      x == IF xs = 0 THEN 0 ELSE sg * Num(DropLead(SubSeq(t, IF At(t, xs) \in {43, 45} THEN xs + 1 ELSE xs, r.p - 1)))
  IN  Canon(neg, ip \o fp, Len(ip) + x)
IntOf(t, p, r) == LET s == SubSeq(t, p, r.p - 1) IN IF s = <<45, 48>> THEN <<48>> ELSE s

(* keys, sorted by bytes *)
RECURSIVE Below(_, _)
Below(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Below(Tail(a), Tail(b)))
RECURSIVE Put(_, _)
Put(m, e) == IF m = <<>> THEN <<e>>
             ELSE IF m[1].k = e.k THEN <<e>> \o Tail(m)
             ELSE IF Below(e.k, m[1].k) THEN <<e>> \o m
             ELSE <<m[1]>> \o Put(Tail(m), e)
Strip(m) == [j \in 1..Len(m) |-> [k |-> m[j].k, v |-> m[j].v]]

(* A value at p (no leading blanks) at nesting depth d. The answer: ok, p behind it, v its   *)
(* value, ev the events met in text order: [e |-> 1 begin / 2 end, at |-> 0-based offset,    *)
(* d |-> depth, and for begin: kind, name (offset, size), value offset], ep the 0-based      *)
(* offset of the first thing that cannot be.                                                *)
Kinds == [null |-> 0, true |-> 1, false |-> 2, int |-> 3, real |-> 4, str |-> 5, arr |-> 6, obj |-> 7]
Begin(p, d, nm) == [e |-> 1, at |-> p - 1, d |-> d, nm |-> nm]
End(p, d, kind, from) == [e |-> 2, at |-> p - 1, d |-> d, kind |-> kind, from |-> from - 1]
Good(p, v, ev) == [ok |-> TRUE, p |-> p, v |-> v, ev |-> ev, ep |-> 0]
Bad(p, ev) == [ok |-> FALSE, p |-> 0, v |-> Null, ev |-> ev, ep |-> p - 1]
Prim(p, q, d, nm, v, kind) == Good(q, v, <<Begin(p, d, nm), End(q, d, kind, p)>>)
RECURSIVE Value(_, _, _, _), Elements(_, _, _, _, _), Members(_, _, _, _, _)
Value(t, p, d, nm) ==
  LET b == At(t, p)
      n == Number(t, p)
  IN  CASE b = 34 -> LET c == Chars(t, p + 1, <<>>) IN IF c.p = 0 THEN Bad(p, <<Begin(p, d, nm)>>) ELSE Prim(p, c.p, d, nm, Leaf("str", c.s), Kinds.str)
        [] Starts(t, p, <<116, 114, 117, 101>>) -> Prim(p, p + 4, d, nm, Leaf("bool", <<1>>), Kinds.true)
        [] Starts(t, p, <<102, 97, 108, 115, 101>>) -> Prim(p, p + 5, d, nm, Leaf("bool", <<0>>), Kinds.false)
        [] Starts(t, p, <<110, 117, 108, 108>>) -> Prim(p, p + 4, d, nm, Null, Kinds.null)
        [] n.p # 0 -> IF n.real THEN Prim(p, n.p, d, nm, Leaf("real", RealOf(t, p, n)), Kinds.real) ELSE Prim(p, n.p, d, nm, Leaf("int", IntOf(t, p, n)), Kinds.int)
        [] b = 91 -> LET q == Ws(t, p + 1)
                         r == IF At(t, q) = 93 THEN Good(q + 1, [t |-> "arr", s |-> <<>>, m |-> <<>>], <<>>) ELSE Elements(t, q, d, <<>>, <<>>)
                     IN  IF ~r.ok THEN Bad(r.ep + 1, <<Begin(p, d, nm)>> \o r.ev)
                         ELSE Good(r.p, r.v, <<Begin(p, d, nm)>> \o r.ev \o <<End(r.p, d, Kinds.arr, p)>>)
        [] b = 123 -> LET q == Ws(t, p + 1)
                          r == IF At(t, q) = 125 THEN Good(q + 1, [t |-> "obj", s |-> <<>>, m |-> <<>>], <<>>) ELSE Members(t, q, d, <<>>, <<>>)
                      IN  IF ~r.ok THEN Bad(r.ep + 1, <<Begin(p, d, nm)>> \o r.ev)
                          ELSE Good(r.p, r.v, <<Begin(p, d, nm)>> \o r.ev \o <<End(r.p, d, Kinds.obj, p)>>)
        [] OTHER -> Bad(p, <<Begin(p, d, nm)>>)
Elements(t, p, d, m, ev) ==
  LET r == Value(t, p, d + 1, <<0, 0>>)
      q == Ws(t, r.p)
      m1 == Append(m, [k |-> <<>>, v |-> r.v])
  IN  IF ~r.ok THEN Bad(r.ep + 1, ev \o r.ev)
      ELSE IF At(t, q) = 93 THEN Good(q + 1, [t |-> "arr", s |-> <<>>, m |-> m1], ev \o r.ev)
      ELSE IF At(t, q) = 44 THEN Elements(t, Ws(t, q + 1), d, m1, ev \o r.ev)
      ELSE Bad(q, ev \o r.ev)
Members(t, p, d, m, ev) ==
  LET c == IF At(t, p) = 34 THEN Chars(t, p + 1, <<>>) ELSE [p |-> 0, s |-> <<>>]
      co == Ws(t, c.p)
      r == Value(t, Ws(t, co + 1), d + 1, <<p - 1, c.p - p>>)
      q == Ws(t, r.p)
      m1 == Put(m, [k |-> c.s, v |-> r.v])
  IN  IF c.p = 0 THEN Bad(p, ev)
      ELSE IF At(t, co) # 58 THEN Bad(co, ev)
      ELSE IF ~r.ok THEN Bad(r.ep + 1, ev \o r.ev)
      ELSE IF At(t, q) = 125 THEN Good(q + 1, [t |-> "obj", s |-> <<>>, m |-> m1], ev \o r.ev)
      ELSE IF At(t, q) = 44 THEN Members(t, Ws(t, q + 1), d, m1, ev \o r.ev)
      ELSE Bad(q, ev \o r.ev)
Text(t) == Value(t, Ws(t, 1), 1, <<0, 0>>)
RECURSIVE Top(_)
Top(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE r == Top(S \ {x}) IN IF x > r THEN x ELSE r
Depth(r) == Top({r.ev[j].d : j \in 1..Len(r.ev)})

(* Writing: the value a written text has to denote. Members that are null disappear if     *)
(* asked; reals keep n digits behind the point (written: any of the two neighbours of a      *)
(* tie, so reals are compared by Near).                                                     *)
RECURSIVE DropNulls(_)
DropNulls(m) == IF m = <<>> THEN <<>> ELSE (IF Head(m).v.t = "null" THEN <<>> ELSE <<Head(m)>>) \o DropNulls(Tail(m))

(* The canonical decimal c rounded to n digits behind the point: the set of allowed results  *)
RECURSIVE Inc(_)                           \* digits + 1, with a new leading digit if necessary
Inc(ds) == IF ds = <<>> THEN <<49>>
           ELSE IF ds[Len(ds)] = 57 THEN Inc(SubSeq(ds, 1, Len(ds) - 1)) \o <<48>>
           ELSE [ds EXCEPT ![Len(ds)] = @ + 1]
Round(c, n) ==
  LET neg == c[1] x == c[2] ds == SubSeq(c, 3, Len(c))
      keep == x + n                            \* so many of the digits stay
      k == IF keep < 0 THEN 0 ELSE IF keep > Len(ds) THEN Len(ds) ELSE keep
      lo == SubSeq(ds, 1, k)
      up == LET u == Inc(lo) IN IF Len(u) > k THEN Canon(neg, u, (IF keep < 0 THEN 0 ELSE x) + 1) ELSE Canon(neg, u, x)
      down == Canon(neg, lo, x)
      rest == SubSeq(ds, k + 1, Len(ds))
  IN  IF Len(c) = 2 THEN {<<0, 0>>}
      ELSE IF keep < 0 THEN {<<0, 0>>}
      ELSE IF rest = <<>> THEN {down}
      ELSE IF rest[1] > 53 \/ (rest[1] = 53 /\ Len(rest) > 1) THEN {up}
      ELSE IF rest[1] = 53 THEN {up, down}
      ELSE {down}
(* an integer written for a real (no digits behind the point) *)
AsReal(v) == IF v.t = "real" THEN v.s
             ELSE LET neg == IF v.s[1] = 45 THEN 1 ELSE 0 ds == SubSeq(v.s, 1 + neg, Len(v.s)) IN Canon(neg, ds, Len(ds))
(* a double holds 15 decimal digits: what is written behind them does not count             *)
Sig(c) == IF Len(c) <= 17 THEN {c} ELSE Round(c, 15 - c[2])
NonFinite == {<<64, 105, 110, 102>>, <<64, 45, 105, 110, 102>>, <<64, 110, 97, 110>>}   \* @inf @-inf @nan stand for such reals
RECURSIVE Denotes(_, _, _, _)
Denotes(w, v, nullprop, prec) ==
  CASE v.t = "str" /\ v.s \in NonFinite -> w.t = "null"
    [] v.t = "real" -> w.t \in {"real", "int"} /\ Sig(AsReal(w)) \cap Round(v.s, prec) # {}
    [] v.t \in {"null", "bool", "int", "str"} -> w = v
    [] OTHER -> LET m == IF v.t = "obj" /\ ~nullprop THEN DropNulls(v.m) ELSE v.m
                IN  /\ w.t = v.t /\ Len(w.m) = Len(m)
                    /\ \A j \in 1..Len(m) : w.m[j].k = m[j].k /\ Denotes(w.m[j].v, m[j].v, nullprop, prec)
=============================================================================
