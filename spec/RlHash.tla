------------------------------- MODULE RlHash --------------------------------
(* A hash table: entries (key, value) in the order they were put in.                *)
EXTENDS Integers, Sequences, FiniteSets
Empty == <<>>
Vals(s, k) == LET p == SelectSeq(s, LAMBDA x : x.k = k) IN [j \in 1..Len(p) |-> p[j].v]
Back(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
First(q, none) == IF q = <<>> THEN none ELSE q[1]
R(s, ret) == [s |-> s, ret |-> ret]
Step(s, e) ==
  CASE e.op = "new" -> R(Empty, 0)
    [] e.op \in {"ins", "insobj"} -> R(Append(s, [k |-> e.k, v |-> e.v]), 0)
    [] e.op = "rem" -> R(SelectSeq(s, LAMBDA x : x.k # e.k), 0)
    [] e.op = "remall" -> R(Empty, 0)
    [] e.op = "look" -> R(s, First(Vals(s, e.k), -1))
    [] e.op = "lookobj" -> R(s, First(Vals(s, e.k), 0))
    [] e.op = "tail" -> R(s, First(Back(Vals(s, e.k)), -1))
    [] e.op = "walk" -> R(s, Vals(s, e.k))
    [] e.op = "back" -> R(s, Back(Vals(s, e.k)))
=============================================================================
