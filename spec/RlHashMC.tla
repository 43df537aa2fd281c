------------------------------ MODULE RlHashMC -------------------------------
(* A hash table exhaustively, next to what an implementation with buckets holds:     *)
(* one list per bucket (two buckets; keys a and c share one).                        *)
EXTENDS RlHash, TLC, Json
CONSTANT MaxLen
Keys == {"a", "b", "c"}
Bucket(k) == IF k = "b" THEN 1 ELSE 2
VARIABLES s, b, last
vars == <<s, b, last>>
E(op, k, v) == [op |-> op, k |-> k, v |-> v]
Calls == {E("ins", k, v) : k \in Keys, v \in {1, 2}} \cup {E(o, k, 0) : o \in {"rem", "look", "tail", "walk", "back", "lookobj"}, k \in Keys} \cup {E("remall", "", 0)}
Init == s = Empty /\ b = <<Empty, Empty>> /\ last = E("none", "", 0)
Next == \E e \in Calls :
          /\ e.op = "ins" => Len(s) < MaxLen
          /\ s' = Step(s, e).s /\ last' = e
          /\ b' = IF e.op = "remall" THEN <<Empty, Empty>> ELSE [b EXCEPT ![Bucket(e.k)] = Step(@, e).s]
Spec == Init /\ [][Next]_vars
(* walking a bucket finds what walking everything finds *)
Buckets == [](\A k \in Keys : Vals(b[Bucket(k)], k) = Vals(s, k))
Gone == [][last'.op = "rem" => Vals(s', last'.k) = <<>> /\ \A k \in Keys \ {last'.k} : Vals(s', k) = Vals(s, k)]_vars
View == <<s, b>>
Emit == PrintT("EDGE " \o ToJson([f |-> s, e |-> last', t |-> s']))
=============================================================================
