------------------------------- MODULE RlMapMC -------------------------------
(* A map exhaustively, with the places freed most long ago used first (so that the    *)
(* transitions printed for replay are those of one run); the properties do not use    *)
(* this order.                                                                      *)
EXTENDS RlMap, TLC, Json
CONSTANT MaxPlaces
Keys == {"a", "c"}
VARIABLES s, fr, last
vars == <<s, fr, last>>
Nothing(op) == IF op = "key" THEN "" ELSE 0
E(op, k, i, v) == [op |-> op, k |-> k, i |-> i, v |-> v, ret |-> Nothing(op)]
Ix == 0..MaxPlaces
Calls == {E("add", k, 0, 1) : k \in Keys} \cup {E(o, k, 0, 0) : o \in {"look", "tail"}, k \in Keys} \cup {E(o, "", i, 2) : o \in {"del", "set", "next", "prev", "key", "val"}, i \in Ix}
         \cup {E(o, "", 0, 0) : o \in {"first", "last"}}
Init == s = Empty /\ fr = <<>> /\ last = E("none", "", 0, 0)
Next == \E e \in Calls :
          LET i == IF fr = <<>> THEN s.n ELSE fr[1]
              d == IF e.op = "add" THEN [e EXCEPT !.ret = i] ELSE e
          IN  /\ e.op = "add" => i < MaxPlaces
              /\ s' = Step(s, d).s /\ last' = d
              /\ fr' = CASE e.op = "add" /\ fr # <<>> -> SubSeq(fr, 2, Len(fr))
                         [] e.op = "del" /\ e.i \in Live(s) -> Append(fr, e.i)
                         [] OTHER -> fr
Spec == Init /\ [][Next]_vars
FreeOnce == [](Free(s) = {fr[j] : j \in 1..Len(fr)} /\ Cardinality(Free(s)) = Len(fr))
PlacesOnce == [](Cardinality(Live(s)) = Len(s.q))
OthersStay == [][\A i \in Live(s) : i # last'.i \/ last'.op \notin {"del", "set"} => i \in Live(s') /\ s'.q[Pos(s', i)] = s.q[Pos(s, i)]]_vars
OrderStays == [][\A i, j \in Live(s) \cap Live(s') : Pos(s, i) < Pos(s, j) <=> Pos(s', i) < Pos(s', j)]_vars
View == <<s, fr>>
Emit == PrintT("EDGE " \o ToJson([f |-> [s |-> s, fr |-> fr], e |-> last', t |-> [s |-> s', fr |-> fr']]))
=============================================================================
