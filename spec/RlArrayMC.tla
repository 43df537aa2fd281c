----------------------------- MODULE RlArrayMC -------------------------------
(* One plain array, exhaustively; transitions are printed for replay.               *)
EXTENDS RlArray, TLC, Json
CONSTANT MaxLen
VARIABLES a, last
vars == <<a, last>>
E(op, i, j, x) == [op |-> op, i |-> i, j |-> j, x |-> x]
Ix == 0..MaxLen
Calls == {E("add", 0, 0, x) : x \in {0, 2}} \cup {E(o, i, 0, 1) : o \in {"ins", "repl"}, i \in Ix} \cup {E(o, i, 0, 0) : o \in {"setlen", "del"}, i \in Ix}
         \cup {E("rmlast", 0, 0, 0), E("pop", 0, 0, 0), E("last", 0, 0, 0), E("expand", 2, 0, 0)} \cup {E("slotset", i, 0, 1) : i \in {0, 2}}
         \cup {E("move", d, s, n) : d \in 0..2, s \in 0..2, n \in 1..2}
Init == a = NewA /\ last = E("none", 0, 0, 0)
Next == \E e \in Calls : LET r == Plain(a, e).a IN Len(r.v) <= MaxLen /\ a' = r /\ last' = e
Spec == Init /\ [][Next]_vars
(* taking out what was put in gives the array before; other elements never change    *)
InsertDelete == [](\A i \in 0..Len(a.v) : Delete(Insert(a, i, 3), i).v = a.v)
ReplaceOne == [](\A i \in 0..Len(a.v) - 1 : LET b == Replace(a, i, 3) IN Len(b.v) = Len(a.v) /\ \A k \in 1..Len(a.v) : b.v[k] = IF k = i + 1 THEN 3 ELSE a.v[k])
DeleteIsMove == [](\A i \in 0..Len(a.v) - 1 : Delete(a, i).v = SubSeq(Move(a, i, i + 1, Len(a.v) - i - 1).v, 1, Len(a.v) - 1))
OutOfRange == [][(last'.op = "del" /\ last'.i >= Len(a.v)) \/ (last'.op = "move" /\ ~MoveOk(a, last'.i, last'.j, last'.x)) => a' = a]_vars
NeverUsedIsZero == [](\A k \in a.hw + 1..MaxLen : SetLen(a, k).v[k] = 0)
Used == [](a.hw >= Len(a.v))
View == a
Emit == PrintT("EDGE " \o ToJson([f |-> a, e |-> last', t |-> a']))
=============================================================================
