------------------------------ MODULE RpaLifeMC ------------------------------
(* The life cycle over a small pool of texts, checked exhaustively; its transitions  *)
(* are printed for replay on the code.                                              *)
EXTENDS RpaLife, TLC, Json
CONSTANT MaxLoads

X == <<97>>
Y == <<98>>
C(c) == [k |-> "chr", c |-> c, q |-> ""]
Rf(n) == [k |-> "ref", n |-> n, q |-> ""]
Seq1(es) == [k |-> "seq", es |-> es]
Rule(n, b) == [k |-> "rule", n |-> n, b |-> b]
Pool == << <<Rule("a", Seq1(<<C(120)>>))>>,                       \* a ::= x
           <<Rule("a", Seq1(<<C(121), C(120)>>))>>,               \* a ::= y x
           <<Rule("b", Seq1(<<Rf("a"), C(122)>>))>> >>            \* b ::= <a> z

VARIABLES s, n, last
vars == <<s, n, last>>
Call(op) == [op |-> op, bad |-> FALSE, items |-> <<>>, len |-> 1, n |-> "", r |-> 0, inp |-> <<>>, ret |-> 0, k |-> 0]
Calls == {Call(o) : o \in {"open", "close", "comp", "first", "last", "exe", "err", "serr"}}
         \cup {[Call("load") EXCEPT !.k = k, !.items = Pool[k]] : k \in 1..Len(Pool)}
         \cup {[Call("load") EXCEPT !.bad = TRUE]}
         \cup {[Call("look") EXCEPT !.n = m] : m \in {"a", "b"}}
         \cup {[Call("exeoff") EXCEPT !.r = r] : r \in {0, 9}}
         \cup {[Call("run") EXCEPT !.r = r, !.inp = w] : r \in {0, 1}, w \in {<<120, 122>>, <<121, 120, 122>>}}
Init == s = Init0 /\ n = 0 /\ last = Call("none")
Next == \E e \in Calls :
          /\ e.op = "load" => n < MaxLoads
          /\ LET r == Step(s, e)
             IN  /\ s' = r.s
                 /\ last' = [e EXCEPT !.ret = r.a]
                 /\ n' = IF e.op = "load" /\ r.a >= 0 THEN n + 1 ELSE n
Spec == Init /\ [][Next]_vars

(* a failing call changes nothing but the error *)
FailureChangesNothing == [][last'.ret < 0 /\ last'.op \notin {"run", "comp"} => s'.items = s.items /\ s'.closed = s.closed /\ s'.comp = s.comp]_vars
(* only a closed database is compiled, and only a compiled one runs *)
CompiledIsClosed == [](s.comp => s.closed /\ Unresolved(s.items) = {})
RunNeedsCompiled == [][last'.op = "run" /\ last'.ret >= 0 => s.comp]_vars
(* the answer of a run depends on the loaded items only, not on how they got there  *)
RunIsFresh == [][last'.op = "run" /\ s.comp /\ last'.r < Len(s.items) => last'.ret = Apply(Ctx(s.items, last'.inp, 0, 0, FALSE), last'.r + 1).ret]_vars
View == <<s, n>>
Emit == PrintT("EDGE " \o ToJson([f |-> [s |-> s, n |-> n], e |-> [op |-> last'.op, bad |-> last'.bad, k |-> last'.k, n |-> last'.n, r |-> last'.r, inp |-> last'.inp],
                                  t |-> [s |-> s', n |-> n']]))
=============================================================================
