------------------------------- MODULE RxProp -------------------------------
(* Property trees over typed variables (J06). A node is [t, ty, i, n, acc, chk, id, m]: t one of  *)
(* leaf, range, map, arr, none; a leaf is bound to variable i of type ty, a range to n of them    *)
(* from i on; acc: 1 read, 2 write, 3 both; chk: the check (0 accepts all, 1 none, 2 no integer     *)
(* above 50); id: what the change notification is called with; m: members [k |-> name, v |-> node]. *)
(* The state is [root, vars], vars a function from type names to sequences of values.             *)
EXTENDS RxJson, FiniteSets
NoneNode == [t |-> "none", ty |-> "-", i |-> 0, n |-> 0, acc |-> 0, chk |-> 0, id |-> 0, m |-> <<>>]
Zero(ty) == CASE ty \in {"i64", "i32", "enum"} -> Leaf("int", <<48>>) [] ty = "dbl" -> Leaf("real", <<0, 0>>) [] ty = "str" -> Leaf("str", <<>>) [] ty = "bool" -> Leaf("bool", <<0>>)
Fresh == [root |-> NoneNode, vars |-> [ty \in {"i64", "i32", "enum", "dbl", "str", "bool"} |-> [j \in 1..4 |-> Zero(ty)]]]
Digs(n) == LET RECURSIVE D(_)
               D(x) == IF x < 10 THEN <<48 + x>> ELSE Append(D(x \div 10), 48 + (x % 10))
           IN  D(n)
AllDigits(w) == w # <<>> /\ \A j \in 1..Len(w) : Digit(w[j])
Has(nd, k) == \E j \in 1..Len(nd.m) : nd.m[j].k = k
PosOf(nd, k) == CHOOSE j \in 1..Len(nd.m) : nd.m[j].k = k
RECURSIVE Upto(_, _, _)                   \* the first position >= p of one of the bytes S, or behind the end
Upto(w, p, S) == IF p > Len(w) THEN p ELSE IF w[p] \in S THEN p ELSE Upto(w, p + 1, S)
From(w, p) == SubSeq(w, p, Len(w))
Miss == [ok |-> FALSE, w |-> <<>>]
Hit(w) == [ok |-> TRUE, w |-> w]
(* one step by name or by index: the position of the member, or 0                                *)
ByName(nd, k) == CASE nd.t = "map" -> IF Has(nd, k) THEN PosOf(nd, k) ELSE 0
                   [] nd.t = "arr" -> IF AllDigits(k) /\ Num(k) < Len(nd.m) THEN Num(k) + 1 ELSE 0
                   [] OTHER -> 0
(* a path in text form: where it leads, as positions of members                                  *)
RECURSIVE Nav(_, _)
Nav(nd, p) ==
  CASE nd.t = "none" -> Miss
    [] nd.t \in {"leaf", "range"} -> IF p = <<>> THEN Hit(<<>>) ELSE Miss
    [] nd.t = "map" -> IF p = <<>> THEN Miss
                       ELSE LET e == Upto(p, 2, {46, 91})
                                nm == IF p[1] = 46 THEN SubSeq(p, 2, e - 1) ELSE SubSeq(p, 1, e - 1)
                                j == ByName(nd, nm)
                            IN  IF j = 0 THEN Miss ELSE LET r == Nav(nd.m[j].v, From(p, e)) IN [r EXCEPT !.w = <<j>> \o @]
    [] nd.t = "arr" -> IF p = <<>> THEN Miss
                       ELSE IF p[1] # 91 THEN Miss
                       ELSE LET e == Upto(p, 2, {93})
                                j == IF e > Len(p) THEN 0 ELSE ByName(nd, SubSeq(p, 2, e - 1))
                            IN  IF j = 0 THEN Miss ELSE LET r == Nav(nd.m[j].v, From(p, e + 1)) IN [r EXCEPT !.w = <<j>> \o @]
(* steps by the subscript operator: names, or numbers <<-1, n>>                                  *)
RECURSIVE Walk(_, _)
Walk(nd, st) == IF st = <<>> THEN Hit(<<>>)
                ELSE LET k == IF st[1] # <<>> /\ st[1][1] = -1 THEN Digs(st[1][2]) ELSE st[1]
                         j == ByName(nd, k)
                     IN  IF j = 0 THEN Miss ELSE LET r == Walk(nd.m[j].v, Tail(st)) IN [r EXCEPT !.w = <<j>> \o @]
Find(s, p) == IF p.how = "nav" THEN Nav(s.root, p.text) ELSE Walk(s.root, p.steps)
RECURSIVE At2(_, _), SetNode(_, _, _)
At2(nd, w) == IF w = <<>> THEN nd ELSE At2(nd.m[w[1]].v, Tail(w))
SetNode(nd, w, x) == IF w = <<>> THEN x ELSE [nd EXCEPT !.m[w[1]].v = SetNode(nd.m[w[1]].v, Tail(w), x)]

Accepts(chk, v) == CASE chk = 0 -> TRUE [] chk = 1 -> FALSE
                     [] chk = 2 -> ~(v.t = "int" /\ v.s[1] # 45 /\ Num(v.s) > 50)
(* the integer part of a canonical decimal *)
Trunc(c) == LET d == SubSeq(c, 3, Len(c)) IN IF c[2] <= 0 THEN <<48>>
                                             ELSE (IF c[1] = 1 THEN <<45>> ELSE <<>>) \o [j \in 1..c[2] |-> IF j <= Len(d) THEN d[j] ELSE 48]
(* a value as the type holds it, or nothing *)
Conv(ty, v) == CASE ty \in {"i64", "i32"} /\ v.t = "int" -> <<v>>
                 [] ty \in {"i64", "i32"} /\ v.t = "real" -> <<Leaf("int", Trunc(v.s))>>
                 [] ty \in {"i64", "i32"} /\ v.t = "bool" -> <<Leaf("int", <<48 + v.s[1]>>)>>
                 [] ty = "enum" /\ v.t = "int" -> <<v>>
                 [] ty = "dbl" /\ v.t \in {"int", "real"} -> <<Leaf("real", AsReal(v))>>
                 [] ty = "str" /\ v.t = "str" -> <<v>>
                 [] ty = "bool" /\ v.t = "bool" -> <<v>>
                 [] OTHER -> <<>>
ArrOf(vs) == [t |-> "arr", s |-> <<>>, m |-> [j \in 1..Len(vs) |-> [k |-> <<>>, v |-> vs[j]]]]
Read(s, nd) == IF nd.t = "leaf" THEN s.vars[nd.ty][nd.i + 1] ELSE ArrOf([j \in 1..nd.n |-> s.vars[nd.ty][nd.i + j]])
Answer(x, v, log, s) == [x |-> x, v |-> v, log |-> log, s |-> s]
Fail(s) == Answer(1, Null, <<>>, s)
Done(s) == Answer(0, Null, <<>>, s)
CanWrite(nd) == nd.acc \in {2, 3}
CanRead(nd) == nd.acc \in {1, 3}
SetTo(s, nd, v) ==
  LET s1 == IF nd.t = "leaf"
            THEN LET c == Conv(nd.ty, v) IN IF c = <<>> THEN s ELSE [s EXCEPT !.vars[nd.ty][nd.i + 1] = c[1]]
            ELSE [s EXCEPT !.vars[nd.ty] = [j \in 1..4 |-> IF j > nd.i /\ j <= nd.i + Len(v.m) THEN Conv(nd.ty, v.m[j - nd.i].v)[1] ELSE @[j]]]
      fits == IF nd.t = "leaf" THEN Conv(nd.ty, v) # <<>>
              ELSE v.t = "arr" /\ Len(v.m) <= nd.n /\ \A j \in 1..Len(v.m) : Conv(nd.ty, v.m[j].v) # <<>>
  IN  IF nd.t \notin {"leaf", "range"} \/ ~CanWrite(nd) THEN Fail(s)
      ELSE IF ~Accepts(nd.chk, v) \/ ~fits THEN Fail(s)
      ELSE Answer(0, Null, <<<<nd.id, Read(s1, nd)>>>>, s1)
RECURSIVE Leaves(_, _), LeavesM(_, _, _)
Leaves(nd, p) == IF nd.t \in {"leaf", "range"} THEN <<[p |-> p, nd |-> nd]>>
                 ELSE IF nd.t = "none" THEN <<[p |-> p, nd |-> nd]>>
                 ELSE LeavesM(nd, p, 1)
LeavesM(nd, p, j) == IF j > Len(nd.m) THEN <<>>
                     ELSE Leaves(nd.m[j].v, p \o (IF nd.t = "map" THEN <<46>> \o nd.m[j].k ELSE <<91>> \o Digs(j - 1) \o <<93>>)) \o LeavesM(nd, p, j + 1)
RECURSIVE ObjOf(_, _)
ObjOf(s, ls) == IF ls = <<>> THEN <<>> ELSE Put(ObjOf(s, Tail(ls)), [k |-> ls[1].p, v |-> Read(s, ls[1].nd)])
Do(s, e) ==
  LET f == Find(s, e.p)
      nd == At2(s.root, f.w)
      h == Find(s, e.q)
      src == At2(s.root, h.w)
      ls == Leaves(nd, e.pre)
      whole == \A j \in 1..Len(ls) : ls[j].nd.t # "none"
  IN  CASE e.op = "build" -> Done([s EXCEPT !.root = e.tree])
        [] e.op \in {"clone", "steal"} -> Done(s)
        [] e.op \in {"set", "get", "access", "enum", "json", "push", "assign", "empty"} /\ ~f.ok -> Fail(s)
        [] e.op = "set" -> SetTo(s, nd, e.v)
        [] e.op = "get" -> IF nd.t \in {"leaf", "range"} /\ CanRead(nd) THEN Answer(0, Read(s, nd), <<>>, s) ELSE Fail(s)
        [] e.op = "access" -> IF nd.t \in {"leaf", "range"} THEN Answer(0, Leaf("int", <<48 + nd.acc>>), <<>>, s) ELSE Fail(s)
        [] e.op = "enum" -> IF ~whole THEN Fail(s) ELSE Answer(0, ArrOf([j \in 1..Len(ls) |-> Leaf("str", ls[j].p \o <<32, 48 + ls[j].nd.acc>>)]), <<>>, s)
        [] e.op = "json" -> IF ~whole THEN Fail(s)
                            ELSE IF \E j \in 1..Len(ls) : ~CanRead(ls[j].nd) THEN Fail(s)
                            ELSE Answer(0, [t |-> "obj", s |-> <<>>, m |-> ObjOf(s, ls)], <<>>, s)
        [] e.op = "push" -> IF nd.t # "arr" THEN Fail(s) ELSE Done([s EXCEPT !.root = SetNode(s.root, f.w, [nd EXCEPT !.m = Append(@, [k |-> <<>>, v |-> e.tree])])])
        [] e.op = "empty" -> Done([s EXCEPT !.root = SetNode(s.root, f.w, NoneNode)])
        [] e.op = "assign" -> IF ~h.ok THEN Fail(s) ELSE Done([s EXCEPT !.root = SetNode(s.root, f.w, src)])
(* enumeration may come in any order *)
Same(e, v, w) == IF e.op # "enum" THEN v = w
                 ELSE Len(v.m) = Len(w.m) /\ {v.m[j].v : j \in 1..Len(v.m)} = {w.m[j].v : j \in 1..Len(w.m)}
=============================================================================
