----------------------------- MODULE RvmLinkMC -------------------------------
(* The code generator over a small pool of names, checked exhaustively; its         *)
(* transitions are printed for replay on the code.                                  *)
EXTENDS RvmLink, Json
CONSTANTS MaxCode, Big

VARIABLES s, last
vars == <<s, last>>
C(op, n, v, ty, b) == [op |-> op, n |-> n, v |-> v, ty |-> ty, b |-> b, ret |-> 0, err |-> ""]
All == {C("ins", "", 0, 0, <<>>), C("here", "a", 0, 0, <<>>), C("label", "a", 1, 0, <<>>), C("redef", "a", 0, 0, <<>>),
          C("redefhere", "a", 0, 0, <<>>), C("rel", "a", 0, BRANCH, <<>>), C("rel", "a", 0, JUMP, <<>>), C("relidx", "a", 0, DEFAULT, <<>>),
          C("inv", "a", 0, 0, <<>>), C("valid", "a", 0, 0, <<>>), C("look", "a", 0, 0, <<>>), C("look", "d", 0, 0, <<>>), C("lookadd", "d", 0, 0, <<>>),
          C("str", "d", 0, 0, <<104, 105>>), C("data", "d", 0, 0, <<1, 0, 2>>), C("rel", "d", 0, STRREF, <<>>), C("labins", "d2", 0, 0, <<>>),
          C("link", "", 0, 0, <<>>), C("clear", "", 0, 0, <<>>), C("name", "a", 0, 0, <<>>)}
Small == {"here", "redef", "rel", "inv", "look", "str", "link", "clear", "valid"}
Calls == {c \in All : Big \/ (c.op \in Small /\ c.ty # JUMP)}
Answers(e) == CASE e.op = "link" -> {[e EXCEPT !.ret = 0]} \cup {[e EXCEPT !.ret = -1, !.err = n] : n \in {"a", "d"}}
                [] e.op = "name" -> {[e EXCEPT !.ret = m] : m \in {"<none>", "a"}}
                [] OTHER -> {[e EXCEPT !.ret = i] : i \in -1..5}
Grows(e) == e.op \in {"ins", "rel", "relidx", "labins"}
Init == s = Empty /\ last = C("none", "", 0, 0, <<>>)
Next == \E e \in Calls :
          /\ Grows(e) => Len(s.code) < MaxCode
          /\ e.op = "relidx" => At(s, e.n) > 0
          /\ \E a \in Answers(e) : LET r == Step(s, a) IN r.ok /\ s' = r.s /\ last' = a
Spec == Init /\ [][Next]_vars

(* numbers of labels are distinct, follow the order of first mention, and stay      *)
Numbers == [](\A j, k \in 1..Len(s.labs) : s.labs[j].i >= 0 /\ s.labs[k].i >= 0 /\ j < k => s.labs[j].i < s.labs[k].i)
Stay == [][last'.op # "clear" => /\ Len(s'.labs) >= Len(s.labs)
                                 /\ \A k \in 1..Len(s.labs) : s'.labs[k].n = s.labs[k].n /\ (s.labs[k].i >= 0 => s'.labs[k].i = s.labs[k].i)]_vars
(* a reference always denotes a known label, and names never repeat *)
Known == [](\A k \in 1..Len(s.code) : s.code[k].rel \in 0..Len(s.labs))
Once == [](Cardinality({s.labs[k].n : k \in 1..Len(s.labs)}) = Len(s.labs))
(* linking says exactly whether something is missing; whoever links twice gets the   *)
(* same; whatever changes the program must be linked again                           *)
LinkTells == [][last'.op = "link" => (last'.ret = 0 <=> Missing(s) = {}) /\ s'.labs = s.labs /\ s'.code = s.code]_vars
Stale == [][(s'.code # s.code \/ \E k \in 1..Len(s.code) : s.code[k].rel > 0 /\ [s'.labs[s.code[k].rel] EXCEPT !.i = 0] # [s.labs[s.code[k].rel] EXCEPT !.i = 0]) => ~s'.fresh]_vars
(* emitted instructions stay as they are *)
Append1 == [][last'.op # "clear" => Len(s'.code) >= Len(s.code) /\ SubSeq(s'.code, 1, Len(s.code)) = s.code]_vars
View == s
Emit == PrintT("EDGE " \o ToJson([f |-> s, e |-> [op |-> last'.op, n |-> last'.n, v |-> last'.v, ty |-> last'.ty, b |-> last'.b], t |-> s']))
=============================================================================
