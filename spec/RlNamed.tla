------------------------------- MODULE RlNamed -------------------------------
(* Two arrays with named members: names and values by place.                        *)
EXTENDS Integers, Sequences, FiniteSets
Empty == << <<>>, <<>> >>
Named(a, n) == LET RECURSIVE F(_)
                   F(j) == IF j > Len(a) THEN <<>> ELSE (IF a[j].n = n THEN <<j - 1>> ELSE <<>>) \o F(j + 1)
               IN  F(1)
Back(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
First(q) == IF q = <<>> THEN -1 ELSE q[1]
R(a, ret) == [a |-> a, ret |-> ret]
Free(a, e) == e.op = "set" /\ e.i >= Len(a)          \* beyond the end: no visible effect, any answer
Add(a, n, v) == R(Append(a, [n |-> n, v |-> v]), Len(a))
Step(a, e) ==
  CASE e.op = "new" -> R(<<>>, 0)
    [] e.op = "add" -> Add(a, e.n, e.v)
    [] e.op = "repl" -> LET i == First(Named(a, e.n)) IN IF i < 0 THEN Add(a, e.n, e.v) ELSE R([a EXCEPT ![i + 1].v = e.v], i)
    [] e.op = "look" -> R(a, First(Named(a, e.n)))
    [] e.op = "tail" -> R(a, First(Back(Named(a, e.n))))
    [] e.op = "walk" -> R(a, Named(a, e.n))
    [] e.op = "back" -> R(a, Back(Named(a, e.n)))
    [] e.op = "get" -> R(a, IF e.i < Len(a) THEN a[e.i + 1].v ELSE -3)
    [] e.op = "set" -> IF e.i < 0 THEN R(a, -1) ELSE IF e.i < Len(a) THEN R([a EXCEPT ![e.i + 1].v = e.v], 0) ELSE R(a, 0)
    [] e.op = "len" -> R(a, Len(a))
    [] e.op = "dump" -> R(a, [j \in 1..Len(a) |-> a[j].v])
    [] OTHER -> R(a, 0)
=============================================================================
