------------------------------ MODULE RlListMC -------------------------------
(* All histories of a few links on two lists.                                       *)
EXTENDS RlList, FiniteSets, TLC, Json
CONSTANT MaxId
VARIABLES l, last
vars == <<l, last>>
Xs == 1..MaxId
E(op, o, x, y) == [op |-> op, o |-> o, x |-> x, y |-> y]
Calls == {E(op, o, x, 0) : op \in {"addh", "addt", "del", "next", "prev", "spliceat"}, o \in {0, 1}, x \in Xs}
         \cup {E("addafter", o, x, y) : o \in {0, 1}, x \in Xs, y \in Xs}
         \cup {E(op, o, 0, 0) : op \in {"first", "last", "count", "empty", "splice", "walk", "back"}, o \in {0, 1}}
Init == l = <<<<>>, <<>>>> /\ last = E("none", 0, 0, 0)
Next == \E e \in Calls : CanDo(l, e) /\ l' = Do(l, e).l /\ last' = e
Spec == Init /\ [][Next]_vars
Set(s) == {s[k] : k \in 1..Len(s)}
OneList == [](Set(l[1]) \cap Set(l[2]) = {} /\ \A j \in {1, 2} : Cardinality(Set(l[j])) = Len(l[j]))
NoneLost == [][Set(l'[1]) \cup Set(l'[2]) = CASE last'.op \in {"addh", "addt", "addafter"} -> Set(l[1]) \cup Set(l[2]) \cup {last'.x}
                 [] last'.op = "del" -> (Set(l[1]) \cup Set(l[2])) \ {last'.x}
                 [] OTHER -> Set(l[1]) \cup Set(l[2])]_vars
View == l
Emit == PrintT("EDGE " \o ToJson([f |-> l, e |-> last', t |-> l']))
=============================================================================
