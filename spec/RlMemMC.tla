------------------------------- MODULE RlMemMC -------------------------------
(* All histories of a few blocks.                                                   *)
EXTENDS RlMem, TLC, Json
CONSTANT MaxId
VARIABLES s, last
vars == <<s, last>>
E(op, id, n, z) == [op |-> op, id |-> id, n |-> n, z |-> z]
Ids == 1..MaxId
Calls == {E(op, id, n, 0) : op \in {"mal", "zm", "re"}, id \in Ids, n \in {0, 2}} \cup {E("cal", id, 2, z) : id \in Ids, z \in {1, 3}}
         \cup {E("free", id, 0, 0) : id \in Ids} \cup {E("reset", 0, 0, 0)}
Init == s = Empty(0) /\ last = E("none", 0, 0, 0)
Next == \E e \in Calls : CanDo(s, e) /\ s' = Do(s, e, Bytes(e) + 1) /\ last' = e
Spec == Init /\ [][Next]_vars
AtLeast == [](s.max >= Account(s))
BackAgain == [](s.b = <<>> => Account(s) = s.base)
Alone == [][\A k \in 1..Len(s.b) : s.b[k].id # last'.id => Has(s'.b, s.b[k].id) /\ s'.b[At(s'.b, s.b[k].id)].cost = s.b[k].cost]_vars
MaxStays == [][last'.op # "reset" => s'.max >= s.max]_vars
View == [base |-> s.base, b |-> {s.b[k] : k \in 1..Len(s.b)}, max |-> s.max]
Key(x) == [b |-> [id \in Ids |-> IF Has(x.b, id) THEN x.b[At(x.b, id)].cost ELSE 0], max |-> x.max]
Emit == PrintT("EDGE " \o ToJson([f |-> Key(s), e |-> last', t |-> Key(s')]))
=============================================================================
