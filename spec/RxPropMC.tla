------------------------------ MODULE RxPropMC ------------------------------
(* All histories over a small tree: leaves of every access right and check, a range, growth and assignment. *)
EXTENDS RxProp, TLC, Json
CONSTANT MaxNodes
VARIABLES s, last
vars == <<s, last>>
N(t) == [NoneNode EXCEPT !.t = t]
L(ty, i, acc, chk, id) == [N("leaf") EXCEPT !.ty = ty, !.i = i, !.acc = acc, !.chk = chk, !.id = id]
M(k, v) == [k |-> k, v |-> v]
Tree == [N("map") EXCEPT !.m = <<M(<<97>>, L("i64", 0, 3, 2, 1)),
                                 M(<<98>>, [N("arr") EXCEPT !.m = <<M(<<>>, L("i64", 1, 1, 0, 2)), M(<<>>, L("str", 0, 2, 0, 3))>>]),
                                 M(<<99>>, [N("range") EXCEPT !.ty = "i64", !.i = 0, !.n = 2, !.acc = 3, !.id = 4])>>]
P(x) == [how |-> "nav", text |-> x, steps |-> <<>>]
W(st) == [how |-> "walk", text |-> <<>>, steps |-> st]
E(op, p) == [op |-> op, p |-> p, q |-> W(<<>>), pre |-> <<>>, v |-> Null, tree |-> NoneNode, x |-> 0, ret |-> Null, log |-> <<>>]
Leads == {P(<<46, 97>>), P(<<98, 91, 48, 93>>), P(<<46, 98, 91, 49, 93>>), P(<<99>>), W(<<<<98>>, <<-1, 1>>>>)}
Astray == {P(<<98, 91, 120, 93>>), P(<<46, 100>>), W(<<<<98>>, <<-1, 2>>>>), W(<<>>), W(<<<<98>>>>)}
I(n) == Leaf("int", Digs(n))
Vals == {I(5), I(60), Leaf("str", <<120>>), ArrOf(<<I(5), I(5)>>), ArrOf(<<I(8), Leaf("str", <<>>)>>), ArrOf(<<I(0)>>)}
Calls == {[E("set", p) EXCEPT !.v = v] : p \in Leads, v \in Vals} \cup {[E("set", p) EXCEPT !.v = I(5)] : p \in Astray}
         \cup {E("get", p) : p \in Leads \cup Astray}
         \cup {E(op, p) : op \in {"access", "enum", "json"}, p \in {P(<<46, 97>>), W(<<>>), W(<<<<98>>>>), P(<<99>>)}}
         \cup {[E("push", p) EXCEPT !.tree = L("i64", 0, 3, 0, 9)] : p \in {P(<<46, 97>>), W(<<>>), W(<<<<98>>>>)}}
         \cup {[E("assign", p) EXCEPT !.q = q] : p \in {P(<<46, 97>>), W(<<<<98>>, <<-1, 0>>>>), W(<<<<98>>>>)}, q \in {P(<<46, 97>>), W(<<<<98>>, <<-1, 1>>>>), W(<<<<98>>>>)}}
         \cup {[E("assign", W(<<>>)) EXCEPT !.q = W(<<<<98>>>>)]}
RECURSIVE Nodes(_), NodesM(_)
Nodes(v) == 1 + NodesM(v.m)
NodesM(m) == IF m = <<>> THEN 0 ELSE Nodes(Head(m).v) + NodesM(Tail(m))
Init == s = [Fresh EXCEPT !.root = Tree] /\ last = E("none", W(<<>>))
Next == \E e \in Calls : LET a == Do(s, e) IN Nodes(a.s.root) <= MaxNodes /\ s' = a.s /\ last' = [e EXCEPT !.x = a.x, !.ret = a.v, !.log = a.log]
Spec == Init /\ [][Next]_vars
Target(st, e) == At2(st.root, Find(st, e.p).w)
NoEffect == [][last'.x = 1 => s' = s]_vars
OnlySetWrites == [][s'.vars # s.vars => last'.op = "set" /\ last'.x = 0]_vars
NeedsRights == [][last'.op = "set" /\ last'.x = 0 => CanWrite(Target(s, last')) /\ Accepts(Target(s, last').chk, last'.v)]_vars
NotifiedOnce == [][last'.op = "set" => Len(last'.log) = 1 - last'.x]_vars
QuietElse == [][last'.op # "set" => last'.log = <<>>]_vars
TreeStays == [][last'.op \in {"set", "get", "access", "enum", "json"} => s'.root = s.root]_vars
ReadNeeds == [][last'.op = "get" /\ last'.x = 0 => CanRead(Target(s, last'))]_vars
SeesWrite == [][last'.op = "set" /\ last'.x = 0 => last'.log[1][2] = Read(s', Target(s, last'))]_vars
View == s
Emit == PrintT("EDGE " \o ToJson([f |-> s, e |-> last', t |-> s']))
=============================================================================
