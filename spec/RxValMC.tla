------------------------------ MODULE RxValMC -------------------------------
(* All histories of two registers with small values.                                       *)
EXTENDS RxVal, TLC, Json
CONSTANT MaxNodes
VARIABLES s, last
vars == <<s, last>>
None == [r |-> 1, w |-> <<>>]
E(op, p) == [op |-> op, p |-> p, q |-> None, v |-> Null, g |-> "dump", n |-> 0, x |-> 0, ret |-> Null]
Paths == {[r |-> r, w |-> w] : r \in {1, 2}, w \in {<<>>, <<<<-1, 0>>>>, <<<<-1, 1>>>>, <<<<97>>>>}}
Whole == {p \in Paths : p.w = <<>>}
Args == {Leaf("int", <<49>>), Leaf("arr", <<>>), Leaf("obj", <<>>)}
Calls == {[E("set", p) EXCEPT !.v = v] : p \in Paths, v \in Args}
         \cup {[E("get", p) EXCEPT !.g = g] : p \in Whole, g \in {"int", "arr", "obj", "str"}}
         \cup {[E(op, p) EXCEPT !.q = q] : op \in {"copy", "move"}, p \in Paths, q \in Paths}
         \cup {[E("push", p) EXCEPT !.q = q] : p \in Whole, q \in Paths}
         \cup {[E("ctor", p) EXCEPT !.q = q] : p \in Whole, q \in Paths}
RECURSIVE Nodes(_), NodesM(_)
Nodes(v) == 1 + NodesM(v.m)
NodesM(m) == IF m = <<>> THEN 0 ELSE Nodes(Head(m).v) + NodesM(Tail(m))
RECURSIVE Sane(_)
Sane(v) == /\ v.t \notin {"arr", "obj"} => v.m = <<>>
           /\ v.t = "arr" => \A j \in 1..Len(v.m) : v.m[j].k = <<>>
           /\ v.t = "obj" => \A j \in 1..Len(v.m) - 1 : Below(v.m[j].k, v.m[j + 1].k)
           /\ \A j \in 1..Len(v.m) : Sane(v.m[j].v)
Init == s = <<Null, Null>> /\ last = E("none", None)
Next == \E e \in Calls :
          LET a == Do(s, e)
          IN  /\ Usable(e)
              /\ Nodes(a.s[1]) <= MaxNodes /\ Nodes(a.s[2]) <= MaxNodes
              /\ s' = a.s /\ last' = [e EXCEPT !.x = a.x, !.ret = a.v]
Spec == Init /\ [][Next]_vars
Sanity == [](Sane(s[1]) /\ Sane(s[2]))
(* a call leaves registers alone that it does not name *)
Apart == [][\A r \in {1, 2} : r # last'.p.r /\ r # last'.q.r => s'[r] = s[r]]_vars
(* copying takes nothing away from another register *)
CopyKeeps == [][last'.op \in {"copy", "push", "ctor"} /\ last'.x = 0 /\ last'.q.r # last'.p.r => Get1(s', last'.q) = Get1(Follow(s, last'.q).s, last'.q)]_vars
CopyGives == [][last'.op = "copy" /\ last'.x = 0 => Get1(s', last'.p) = Get1(Follow2(s, last'.p, last'.q).s, last'.q)]_vars
MoveNulls == [][last'.op = "move" /\ last'.x = 0 /\ last'.q.r # last'.p.r => Get1(s', last'.q) = Null]_vars
(* moving neither makes nor loses nodes, but for what was at the place moved to *)
MoveCounts == [][last'.op = "move" /\ last'.x = 0 /\ last'.q.r # last'.p.r
                 => LET f == Follow2(s, last'.p, last'.q).s
                    IN  Nodes(s'[1]) + Nodes(s'[2]) = Nodes(f[1]) + Nodes(f[2]) - Nodes(Get1(f, last'.p)) + 1]_vars
(* a failing call changes nothing but for names that the path made *)
FailKeeps == [][last'.x = 1 /\ last'.p.w = <<>> /\ last'.q.w = <<>> => s' = s]_vars
View == s
Emit == PrintT("EDGE " \o ToJson([f |-> s, e |-> last', t |-> s']))
=============================================================================
