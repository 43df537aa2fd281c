------------------------------ MODULE RxRpcMC -------------------------------
(* Registrations of two names with a few kinds of methods, and all sorts of requests.       *)
EXTENDS RxRpc, TLC, Json
VARIABLES s, last
vars == <<s, last>>
A == <<97>>
B == <<98>>
Kinds1 == {"echo", "boom", "pair", "ver"}
E(op) == [op |-> op, name |-> <<>>, kind |-> "-", how |-> "parts", id |-> Null, params |-> Arr(<<>>), mode |-> 0]
Params == {Arr(<<>>), Arr(<<IntV(1), IntV(2)>>), Arr(<<IntV(1), Str(A), Leaf("bool", <<1>>)>>), Null, IntV(3), Str(A)}
Calls == {[E("add") EXCEPT !.name = n, !.kind = k] : n \in {A, B, <<>>, Names.help}, k \in Kinds1 \cup {"empty"}}
         \cup {[E("call") EXCEPT !.name = n, !.params = p, !.id = IntV(4), !.mode = m] : n \in {A, Names.help}, p \in {q \in Params : q.t = "arr"}, m \in 0..3}
         \cup {[E("call") EXCEPT !.name = n, !.params = Arr(<<Str(p)>>)] : n \in {Names.help, Names.spec, Names.helpspec}, p \in {A, B, Names.help}}
Init == s = Fresh /\ last = E("none")
Next == \E e \in Calls : s' = Do(s, e) /\ last' = e
Spec == Init /\ [][Next]_vars
OnlyAdds == [][last'.op # "add" => s' = s]_vars
(* one entry per name, the last one registered *)
OneEach == [](\A j, k \in 1..Len(s) : j # k => s[j].k # s[k].k)
Latest == [][last'.op = "add" /\ last'.name # <<>> /\ last'.kind # "empty" => Kind(s', last'.name) = last'.kind]_vars
Others == [][last'.op = "add" => \A j \in 1..Len(s) : s[j].k # last'.name => Knows(s', s[j].k) /\ Kind(s', s[j].k) = s[j].m]_vars
(* an answer is a result or an error; unknown names are never run; a method runs at most once *)
OneOf == [][last'.op = "call" => LET w == Want(s, last').r IN (w.ok <=> w.codes = {}) /\ (~w.ok => w.v = Null)]_vars
RunsOnce == [][last'.op = "call" => LET w == Want(s, last').r
                                   IN  Len(w.log) <= 1 /\ (w.log # <<>> => Knows(s, last'.name) /\ last'.mode = 0)]_vars
View == s
Emit == PrintT("EDGE " \o ToJson([f |-> s, e |-> last', t |-> s']))
=============================================================================
