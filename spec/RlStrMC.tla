------------------------------- MODULE RlStrMC -------------------------------
(* All histories of two short strings.                                              *)
EXTENDS RlStr, TLC, Json
CONSTANT MaxLen
VARIABLES s, last
vars == <<s, last>>
Texts == {Nil, <<>>, <<97>>, <<0>>, <<97, 98>>, <<97, 0, 98>>, <<0, 97>>}
E(op, o) == [op |-> op, o |-> o, a |-> 0, b |-> 0, n |-> 0, t |-> Nil]
O == {1, 2}
Calls == {[E("new", o) EXCEPT !.t = t] : o \in O, t \in Texts}
         \cup {[E(op, o) EXCEPT !.t = t, !.n = n] : op \in {"len", "catl"}, o \in O, t \in Texts, n \in 0..3}
         \cup {[E(op, o) EXCEPT !.a = a] : op \in {"cp", "ocopy"}, o \in O, a \in O}
         \cup {[E("cat", o) EXCEPT !.a = a, !.b = b] : o \in O, a \in O, b \in O}
         \cup {E("get", o) : o \in O}
Fits(e) == e.op \in {"len", "catl"} => e.n <= IF e.t = Nil THEN 1 ELSE Len(e.t)
Init == s = [k \in 1..4 |-> Nil] /\ last = E("none", 1)
Next == \E e \in Calls : Usable(s, e) /\ Fits(e) /\ Len(Next1(s, e)) <= MaxLen /\ s' = Step(s, e) /\ last' = e
Spec == Init /\ [][Next]_vars
NoZeroInside == [](\A o \in O : s[o] = Nil \/ Zero(s[o]) = {})
Others == [][\A o \in O : o # last'.o => s'[o] = s[o]]_vars
Grows == [][last'.op = "catl" => IsPrefix(s[last'.o], s'[last'.o]) /\ Len(s'[last'.o]) <= Len(s[last'.o]) + last'.n]_vars
Joined == [][last'.op = "cat" => Len(s'[last'.o]) = Len(s[last'.a]) + Len(s[last'.b])]_vars
View == s
Emit == PrintT("EDGE " \o ToJson([f |-> s, e |-> last', t |-> s']))
=============================================================================
