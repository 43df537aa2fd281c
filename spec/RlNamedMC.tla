------------------------------ MODULE RlNamedMC ------------------------------
(* One named array exhaustively; transitions are printed for replay.                *)
EXTENDS RlNamed, TLC, Json
CONSTANT MaxLen
Names == {"a", "ab", ""}
VARIABLES a, last
vars == <<a, last>>
E(op, n, i, v) == [op |-> op, n |-> n, i |-> i, v |-> v]
Calls == {E("add", n, 0, v) : n \in Names, v \in {1}} \cup {E("repl", n, 0, 2) : n \in Names}
         \cup {E(o, n, 0, 0) : o \in {"look", "tail", "walk", "back"}, n \in Names} \cup {E(o, "", i, 3) : o \in {"get", "set"}, i \in 0..MaxLen} \cup {E("set", "", -1, 0)}
Init == a = <<>> /\ last = E("none", "", 0, 0)
Next == \E e \in Calls : LET r == Step(a, e).a IN Len(r) <= MaxLen /\ a' = r /\ last' = e
Spec == Init /\ [][Next]_vars
NamesStay == [][Len(a') >= Len(a) /\ \A j \in 1..Len(a) : a'[j].n = a[j].n]_vars
OneChanges == [][Cardinality({j \in 1..Len(a) : a'[j].v # a[j].v}) <= 1]_vars
HeadTail == [](\A n \in Names : LET q == Named(a, n) IN q # <<>> => First(q) <= First(Back(q)) /\ \A j \in 1..Len(q) : a[q[j] + 1].n = n)
View == a
Emit == PrintT("EDGE " \o ToJson([f |-> a, e |-> last', t |-> a']))
=============================================================================
