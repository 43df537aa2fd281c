------------------------------- MODULE RxVal --------------------------------
(* Registers of JSON values and what calls on them do (J04). Values as in RxJson. A path is  *)
(* [r |-> register, w |-> steps]; a step is <<-1, n>> (index) or the bytes of a name.        *)
EXTENDS RxJson
Typ(v) == v.t
IsIdx(st) == st # <<>> /\ st[1] = -1
HasKey(v, k) == \E j \in 1..Len(v.m) : v.m[j].k = k
KeyAt(v, k) == CHOOSE j \in 1..Len(v.m) : v.m[j].k = k
WithKey(v, k) == IF HasKey(v, k) THEN v ELSE [v EXCEPT !.m = Put(v.m, [k |-> k, v |-> Null])]
(* following steps: ok, and the value afterwards (names that are not there are made)          *)
RECURSIVE Touch(_, _)
Touch(v, w) ==
  IF w = <<>> THEN [ok |-> TRUE, v |-> v]
  ELSE LET st == w[1]
       IN  IF IsIdx(st)
           THEN IF v.t # "arr" \/ st[2] < 0 \/ st[2] >= Len(v.m) THEN [ok |-> FALSE, v |-> v]
                ELSE LET r == Touch(v.m[st[2] + 1].v, Tail(w)) IN [ok |-> r.ok, v |-> [v EXCEPT !.m[st[2] + 1].v = r.v]]
           ELSE IF v.t # "obj" THEN [ok |-> FALSE, v |-> v]
                ELSE LET v1 == WithKey(v, st)
                         j == KeyAt(v1, st)
                         r == Touch(v1.m[j].v, Tail(w))
                     IN  [ok |-> r.ok, v |-> [v1 EXCEPT !.m[j].v = r.v]]
Pos(v, st) == IF IsIdx(st) THEN st[2] + 1 ELSE KeyAt(v, st)
RECURSIVE Look(_, _), SetAt(_, _, _)
Look(v, w) == IF w = <<>> THEN v ELSE Look(v.m[Pos(v, w[1])].v, Tail(w))
SetAt(v, w, x) == IF w = <<>> THEN x ELSE LET j == Pos(v, w[1]) IN [v EXCEPT !.m[j].v = SetAt(v.m[j].v, Tail(w), x)]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Put1(s, p, x) == [s EXCEPT ![p.r] = SetAt(@, p.w, x)]
Get1(s, p) == Look(s[p.r], p.w)
(* the state after following the paths of the call: stops at the first that fails             *)
Follow(s, p) == LET r == Touch(s[p.r], p.w) IN [ok |-> r.ok, s |-> [s EXCEPT ![p.r] = r.v]]
Follow2(s, p, q) == LET a == Follow(s, p) IN IF a.ok THEN Follow(a.s, q) ELSE a
Answer(x, v, s) == [x |-> x, v |-> v, s |-> s]
Fail(s) == Answer(1, Null, s)
Done(s) == Answer(0, Null, s)
TypeName(v) == CASE v.t = "null" -> <<110, 117, 108, 108>> [] v.t = "obj" -> <<111, 98, 106, 101, 99, 116>>
                 [] v.t = "arr" -> <<97, 114, 114, 97, 121>> [] v.t = "str" -> <<115, 116, 114, 105, 110, 103>>
                 [] v.t = "bool" -> <<98, 111, 111, 108, 101, 97, 110>> [] v.t = "int" -> <<105, 110, 116, 101, 103, 101, 114>>
                 [] v.t = "real" -> <<114, 101, 97, 108>>
Needs(g) == CASE g \in {"str", "tstr"} -> {"str"} [] g \in {"bool", "tbool", "cbool"} -> {"bool"}
              [] g \in {"int", "int64", "tint", "tint64", "cint", "cint64"} -> {"int"}
              [] g \in {"real", "treal", "tfloat", "creal", "cfloat"} -> {"int", "real"}
              [] g \in {"obj", "mobj"} -> {"obj"} [] g \in {"arr", "marr"} -> {"arr"}
              [] OTHER -> {"null", "obj", "arr", "str", "bool", "int", "real"}
Got(v, g) == CASE g \in {"type", "name"} -> Leaf("str", TypeName(v))
               [] g = "null" -> Leaf("bool", <<IF v.t = "null" THEN 1 ELSE 0>>)
               [] g \in {"real", "treal", "tfloat", "creal", "cfloat"} -> Leaf("real", AsReal(v))
               [] OTHER -> v
Do(s, e) ==
  LET one == Follow(s, e.p)
      two == Follow2(s, e.p, e.q)
  IN  CASE e.op = "set" -> IF one.ok THEN Done(Put1(one.s, e.p, e.v)) ELSE Fail(one.s)
        [] e.op = "get" -> IF ~one.ok THEN Fail(one.s)
                           ELSE LET v == Get1(one.s, e.p) IN IF v.t \in Needs(e.g) THEN Answer(0, Got(v, e.g), one.s) ELSE Fail(one.s)
        [] e.op = "copy" -> IF two.ok THEN Done(Put1(two.s, e.p, Get1(two.s, e.q))) ELSE Fail(two.s)
        [] e.op = "copyobj" -> IF two.ok /\ Get1(two.s, e.q).t \in {"arr", "obj"} THEN Done(Put1(two.s, e.p, Get1(two.s, e.q))) ELSE Fail(two.s)
        [] e.op = "ctor" -> LET o == Follow(s, e.q) IN IF o.ok THEN Done([o.s EXCEPT ![e.p.r] = Get1(o.s, e.q)]) ELSE Fail(o.s)
        [] e.op = "move" -> IF ~two.ok THEN Fail(two.s)
                            ELSE IF e.p = e.q THEN Done(two.s)
                            ELSE LET x == Get1(two.s, e.q) IN Done(Put1(Put1(two.s, e.q, Null), e.p, x))
        [] e.op = "push" -> IF two.ok /\ Get1(two.s, e.p).t = "arr"
                            THEN Done(Put1(two.s, e.p, [Get1(two.s, e.p) EXCEPT !.m = Append(@, [k |-> <<>>, v |-> Get1(two.s, e.q)])]))
                            ELSE Fail(two.s)
        [] e.op = "pushn" -> IF one.ok /\ Get1(one.s, e.p).t = "arr"
                             THEN Done(Put1(one.s, e.p, [Get1(one.s, e.p) EXCEPT !.m = Append(@, [k |-> <<>>, v |-> e.v])]))
                             ELSE Fail(one.s)
        [] e.op = "elem" -> IF one.ok /\ Get1(one.s, e.p).t = "arr" /\ e.n >= 0 /\ e.n < Len(Get1(one.s, e.p).m)
                            THEN Answer(0, Get1(one.s, e.p).m[e.n + 1].v, one.s) ELSE Fail(one.s)
        [] e.op = "read" -> IF one.ok THEN Done(Put1(one.s, e.p, Text(e.text).v)) ELSE Fail(one.s)
(* a value cannot be moved into a part of itself                                             *)
Usable(e) == e.op = "move" => ~(e.p.r = e.q.r /\ e.p.w # e.q.w /\ Prefix(e.q.w, e.p.w))
=============================================================================
