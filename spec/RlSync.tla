------------------------------- MODULE RlSync --------------------------------
(* What concurrent callers may rely on: every call takes effect at one moment.      *)
(*   spin: a lock (h: who holds it, -1 nobody) and a counter changed inside it        *)
(*   ref:  a counted object (n holders), gone when the last one lets go               *)
(*   atom: a word                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
Init0(kind, threads) == CASE kind = "spin" -> [h |-> -1, n |-> 0, dead |-> FALSE]
                          [] kind = "ref" -> [h |-> -1, n |-> threads, dead |-> FALSE]
                          [] kind = "atom" -> [h |-> -1, n |-> 0, dead |-> FALSE]
R(g, v) == {[g |-> g, v |-> v]}
(* the ways call op(arg) of thread th can take effect in g: none means it waits       *)
Effects(g, th, op, arg) ==
  CASE op = "L" -> IF g.h = -1 THEN R([g EXCEPT !.h = th], 0) ELSE {}
    [] op = "T" -> IF g.h = -1 THEN R([g EXCEPT !.h = th], 1) ELSE R(g, 0)
    [] op = "U" -> IF g.h = th THEN R([g EXCEPT !.h = -1], 0) ELSE {}
    [] op = "C" -> IF g.h = th THEN R([g EXCEPT !.n = @ + 1], g.n + 1) ELSE {}
    [] op = "I" -> IF g.n > 0 THEN R([g EXCEPT !.n = @ + 1], g.n + 1) ELSE {}
    [] op = "D" -> IF g.n > 0 THEN R([g EXCEPT !.n = @ - 1], g.n - 1) ELSE {}
    [] op = "G" -> R(g, g.n)
    [] op = "a" -> R([g EXCEPT !.n = @ + arg], g.n)
    [] op = "s" -> R([g EXCEPT !.n = @ - arg], g.n)
    [] op = "x" -> R([g EXCEPT !.n = arg], g.n)
    [] op = "c" -> IF g.n = arg \div 100 THEN R([g EXCEPT !.n = arg % 100], 1) ELSE R(g, 0)
    [] op = "g" -> R(g, g.n)
    [] op = "w" -> R([g EXCEPT !.n = arg], 0)
=============================================================================
