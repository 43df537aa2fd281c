------------------------------ MODULE RvmScope -------------------------------
(* Nested scopes of names.  A definition: name n, kind k (0 offset, 1 pointer),     *)
(* value v.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [defs |-> <<>>, marks |-> <<>>]
Latest(s, n, from) == LET S == {k \in from + 1..Len(s.defs) : s.defs[k].n = n}
                      IN  IF S = {} THEN <<>> ELSE LET d == s.defs[CHOOSE k \in S : \A m \in S : m <= k] IN <<d.n, d.k, d.v>>
Tip(s) == IF s.marks = <<>> THEN 0 ELSE s.marks[Len(s.marks)]
R(s, ok) == [s |-> s, ok |-> ok]
Answer(s, e) ==
  CASE e.op = "look" -> Latest(s, e.n, 0)
    [] e.op = "tip" -> Latest(s, e.n, Tip(s))
    [] e.op = "n" -> <<Len(s.marks), Len(s.defs)>>
    [] OTHER -> <<>>
Step(s, e) ==
  CASE e.op = "push" -> [s EXCEPT !.marks = Append(@, Len(s.defs))]
    [] e.op = "pop" -> [defs |-> SubSeq(s.defs, 1, Tip(s)), marks |-> SubSeq(s.marks, 1, Len(s.marks) - 1)]
    [] e.op \in {"off", "ptr"} -> [s EXCEPT !.defs = Append(@, [n |-> e.n, k |-> IF e.op = "off" THEN 0 ELSE 1, v |-> e.v])]
    [] OTHER -> s
=============================================================================
