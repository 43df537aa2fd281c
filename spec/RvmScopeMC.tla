----------------------------- MODULE RvmScopeMC ------------------------------
(* Scopes exhaustively, next to a second description of them: one table per open    *)
(* scope, the outermost first.                                                      *)
EXTENDS RvmScope, TLC, Json
CONSTANTS MaxDefs, MaxDepth
Names == {"a", "ab"}
VARIABLES s, tabs, last
vars == <<s, tabs, last>>
None == <<>>
E(op, n, v) == [op |-> op, n |-> n, v |-> v]
Calls == {E("push", "", 0), E("pop", "", 0)} \cup {E(o, n, v) : o \in {"off", "ptr"}, n \in Names, v \in {1}} \cup {E(o, n, 0) : o \in {"look", "tip"}, n \in Names}
Init == s = Empty /\ tabs = << [n \in Names |-> None] >> /\ last = E("none", "", 0)
(* outside any scope the tip is everything there is; inside, the innermost table     *)
Next == \E e \in Calls :
          /\ e.op = "pop" => s.marks # <<>>
          /\ e.op = "push" => Len(s.marks) < MaxDepth
          /\ e.op \in {"off", "ptr"} => Len(s.defs) < MaxDefs
          /\ s' = Step(s, e) /\ last' = e
          /\ tabs' = CASE e.op = "push" -> Append(tabs, [n \in Names |-> None])
                       [] e.op = "pop" -> SubSeq(tabs, 1, Len(tabs) - 1)
                       [] e.op \in {"off", "ptr"} -> [tabs EXCEPT ![Len(tabs)][e.n] = <<e.n, IF e.op = "off" THEN 0 ELSE 1, e.v>>]
                       [] OTHER -> tabs
Spec == Init /\ [][Next]_vars
Innermost(n) == LET S == {k \in 1..Len(tabs) : tabs[k][n] # None} IN IF S = {} THEN None ELSE tabs[CHOOSE k \in S : \A m \in S : m <= k][n]
LookIsInnermost == [](\A n \in Names : Answer(s, E("look", n, 0)) = Innermost(n))
TipIsInnermostOnly == [](\A n \in Names : Answer(s, E("tip", n, 0)) = tabs[Len(tabs)][n])
Balanced == [](Len(tabs) = Len(s.marks) + 1)
View == <<s, tabs>>
Emit == PrintT("EDGE " \o ToJson([f |-> s, e |-> last', t |-> s']))
=============================================================================
