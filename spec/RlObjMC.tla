------------------------------ MODULE RlObjMC --------------------------------
(* All histories of a few objects and collectors.                                   *)
EXTENDS RlObj, TLC, Json
CONSTANTS MaxId, MaxCount
VARIABLES s, n, last, gone
vars == <<s, n, last, gone>>
E(op, id) == [op |-> op, id |-> id, g |-> -1, c |-> -1]
Calls == {E(o, n + 1) : o \in {"obj", "gc"}} \cup {[E(o, n + 1) EXCEPT !.c = 1] : o \in {"ref", "kref"}}
         \cup {E(o, id) : o \in {"inc", "dec", "get", "kind", "remove", "where", "destroy", "collect", "count"}, id \in Ids(s)}
         \cup {[E("copy", id) EXCEPT !.c = n + 1] : id \in Ids(s)} \cup {[E("type", id) EXCEPT !.c = 1] : id \in Ids(s)}
         \cup {[E("add", id) EXCEPT !.g = g] : id \in Ids(s), g \in Ids(s)}
Init == s = <<>> /\ n = 0 /\ last = E("none", 0) /\ gone = {}
Next == \E e \in Calls :
          LET nn == IF e.op \in {"obj", "gc", "ref", "kref", "copy"} THEN n + 1 ELSE n
          IN  /\ CanDo(s, e) /\ nn <= MaxId
              /\ e.op = "inc" => Obj(s, e.id).n < MaxCount
              /\ s' = Do(s, e).s /\ n' = nn /\ last' = e /\ gone' = Do(s, e).gone
Spec == Init /\ [][Next]_vars
(* what is gone was there, and never comes back                                      *)
GoneOnce == [][gone' = Ids(s) \ Ids(s') /\ (Ids(s') \ Ids(s)) \cap 1..n = {}]_vars
(* a counted object nobody destroys or collects goes when its last holder lets go, not before *)
Held == [][\A k \in 1..Len(s) : s[k].kind = "ref" /\ last'.op \notin {"destroy", "collect"} /\ ~Has(s', s[k].id) => last'.op = "dec" /\ last'.id = s[k].id /\ s[k].n = 1]_vars
(* nothing is left registered with a collector that is gone, or that has collected       *)
Collected == [](\A k \in 1..Len(s) : s[k].g # 0 => Has(s, s[k].g) /\ Obj(s, s[k].g).kind = "gc")
             /\ [][last'.op = "collect" => Members(s', {last'.id}) = {}]_vars
(* collecting touches the registered objects only                                     *)
OnlyOnes == [][last'.op \in {"collect", "destroy"} => \A k \in 1..Len(s) : s[k].id # last'.id /\ s[k].g = 0 => Has(s', s[k].id) /\ Obj(s', s[k].id) = s[k]]_vars
View == <<s, n>>
Emit == PrintT("EDGE " \o ToJson([f |-> [s |-> s, n |-> n], e |-> last', t |-> [s |-> s', n |-> n']]))
=============================================================================
