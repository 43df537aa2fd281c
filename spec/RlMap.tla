-------------------------------- MODULE RlMap --------------------------------
(* A map: live entries (place, key, value) in the order they were put in, and the    *)
(* number of places that were ever in use.  A freed place is used again before a new  *)
(* one is taken; which of several freed places is not determined.                    *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [q |-> <<>>, n |-> 0]
Live(s) == {s.q[j].i : j \in 1..Len(s.q)}
Free(s) == (0..s.n - 1) \ Live(s)
Pos(s, i) == CHOOSE j \in 1..Len(s.q) : s.q[j].i = i
WithKey(s, k) == LET p == SelectSeq(s.q, LAMBDA x : x.k = k) IN [j \in 1..Len(p) |-> p[j].i]
Places(s) == [j \in 1..Len(s.q) |-> s.q[j].i]
Back(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
First(q) == IF q = <<>> THEN -1 ELSE q[1]
(* where an entry may go *)
Room(s) == IF Free(s) = {} THEN {s.n} ELSE Free(s)
Add(s, i, k, v) == [q |-> Append(s.q, [i |-> i, k |-> k, v |-> v]), n |-> IF i = s.n THEN s.n + 1 ELSE s.n]
R(s, ok) == [s |-> s, ok |-> ok]
Step(s, e) ==
  CASE e.op = "new" -> R(Empty, TRUE)
    [] e.op = "add" -> IF e.ret \in Room(s) THEN R(Add(s, e.ret, e.k, e.v), TRUE) ELSE R(s, FALSE)
    [] e.op = "look" -> R(s, e.ret = First(WithKey(s, e.k)))
    [] e.op = "tail" -> R(s, e.ret = First(Back(WithKey(s, e.k))))
    [] e.op = "del" -> IF e.i \in Live(s) THEN R([s EXCEPT !.q = SelectSeq(@, LAMBDA x : x.i # e.i)], e.ret = 1) ELSE R(s, e.ret = 0)
    [] e.op = "set" -> IF e.i \in Live(s) THEN R([s EXCEPT !.q[Pos(s, e.i)].v = e.v], e.ret = e.i) ELSE R(s, e.ret = -1)
    [] e.op = "first" -> R(s, e.ret = First(Places(s)))
    [] e.op = "last" -> R(s, e.ret = First(Back(Places(s))))
    [] e.op = "next" -> R(s, e.ret = (IF e.i \in Live(s) /\ Pos(s, e.i) < Len(s.q) THEN s.q[Pos(s, e.i) + 1].i ELSE -1))
    [] e.op = "prev" -> R(s, e.ret = (IF e.i \in Live(s) /\ Pos(s, e.i) > 1 THEN s.q[Pos(s, e.i) - 1].i ELSE -1))
    [] e.op = "key" -> R(s, e.ret = (IF e.i \in Live(s) THEN s.q[Pos(s, e.i)].k ELSE "<none>"))
    [] e.op = "val" -> R(s, IF e.i \in Live(s) THEN s.q[Pos(s, e.i)].v \in {-1, e.ret} ELSE e.ret = -3)
    [] e.op = "walk" -> R(s, e.ret = Places(s))
    [] e.op = "back" -> R(s, e.ret = Back(Places(s)))
=============================================================================
