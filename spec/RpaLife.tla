------------------------------- MODULE RpaLife -------------------------------
(* The life cycle of a grammar database: open, load, close, compile, run, in any    *)
(* order.  A call in the wrong state fails with its error and changes nothing; a    *)
(* database is nothing but the texts loaded so far.                                 *)
EXTENDS RpaPeg

NOTCOMPILED == 1002
NOTOPEN == 1003
NOTCLOSED == 1004
NOTFOUND == 1005
SYNTAXERROR == 1006
UNRESOLVED == 1007
EXECUTION == 2001
RULEABORT == 2003

(* items: what is loaded; closed: the rule table exists; comp: the rules of the      *)
(* table are compiled; err / serr: the last error of database and session            *)
Init0 == [items |-> <<>>, closed |-> TRUE, comp |-> FALSE, err |-> -1, serr |-> -1]
\* err = -1: nothing said about it

RECURSIVE Refs(_)
Refs(e) ==
  CASE e.k \in {"seq", "alt"} -> UNION {Refs(e.es[k]) : k \in 1..Len(e.es)}
    [] e.k = "min" -> Refs(e.l) \cup UNION {Refs(e.rs[k]) : k \in 1..Len(e.rs)}
    [] e.k \in {"not", "grp"} -> Refs(e.e)
    [] e.k = "ref" -> {e.n}
    [] OTHER -> {}
Unresolved(items) ==
  UNION {Refs(items[k].b) : k \in {m \in 1..Len(items) : items[m].k # "dir"}} \ {items[k].n : k \in {m \in 1..Len(items) : items[m].k = "rule"}}

(* One call: the state behind it and its answer.                                    *)
Fails(s, code) == [s |-> [s EXCEPT !.err = code], a |-> -1]
SFails(s, code) == [s |-> [s EXCEPT !.err = code, !.serr = EXECUTION], a |-> -1]
Does(s, a) == [s |-> s, a |-> a]

Step(s, e) ==
  CASE e.op = "open"  -> Does([s EXCEPT !.closed = FALSE, !.comp = FALSE], 0)
    [] e.op = "close" -> Does([s EXCEPT !.closed = TRUE, !.err = -1], 0)
    [] e.op = "load"  -> IF s.closed THEN Fails(s, NOTOPEN)
                         ELSE IF e.bad THEN Fails(s, SYNTAXERROR)
                         ELSE Does([s EXCEPT !.items = @ \o e.items], e.len)
    [] e.op = "comp"  -> IF ~s.closed THEN Fails(s, NOTCLOSED)
                         ELSE IF Unresolved(s.items) # {} THEN [s |-> [s EXCEPT !.err = UNRESOLVED, !.comp = FALSE], a |-> -1]
                         ELSE Does([s EXCEPT !.comp = TRUE, !.err = -1], 0)
    [] e.op = "cfg"   -> Does(s, 0)
    [] e.op = "look"  -> IF ~s.closed THEN Fails(s, NOTCLOSED)
                         ELSE LET j == Lookup(s.items, e.n) IN IF j = 0 THEN Fails(s, NOTFOUND) ELSE Does(s, j - 1)
    [] e.op = "first" -> IF ~s.closed THEN Fails(s, NOTCLOSED) ELSE IF s.items = <<>> THEN Fails(s, NOTFOUND) ELSE Does(s, 0)
    [] e.op = "last"  -> IF ~s.closed THEN Fails(s, NOTCLOSED) ELSE IF s.items = <<>> THEN Fails(s, NOTFOUND) ELSE Does(s, Len(s.items) - 1)
    [] e.op = "next"  -> IF ~s.closed THEN Fails(s, NOTCLOSED) ELSE Does(s, IF e.r + 1 < Len(s.items) THEN e.r + 1 ELSE -1)
    [] e.op = "prev"  -> IF ~s.closed THEN Fails(s, NOTCLOSED) ELSE Does(s, e.r - 1)
    [] e.op = "exe"   -> IF ~s.closed THEN [Fails(s, NOTCLOSED) EXCEPT !.a = 0]
                         ELSE IF ~s.comp \/ {k \in 1..Len(s.items) : s.items[k].k # "dir"} = {} THEN [Fails(s, NOTCOMPILED) EXCEPT !.a = 0] ELSE Does(s, 1)
    [] e.op = "exeoff" -> IF ~s.closed THEN [Fails(s, NOTCLOSED) EXCEPT !.a = 0]
                         ELSE IF ~s.comp THEN [Fails(s, NOTCOMPILED) EXCEPT !.a = 0]
                         ELSE IF e.r < 0 \/ e.r >= Len(s.items) THEN [Fails(s, NOTFOUND) EXCEPT !.a = 0]
                         ELSE IF s.items[e.r + 1].k = "dir" THEN Does([s EXCEPT !.err = -1], e.ret) ELSE Does(s, 1)
    [] e.op = "run"   -> IF ~s.closed THEN SFails(s, NOTCLOSED)
                         ELSE IF ~s.comp \/ {k \in 1..Len(s.items) : s.items[k].k # "dir"} = {} THEN SFails(s, NOTCOMPILED)
                         ELSE IF e.r < 0 \/ e.r >= Len(s.items) THEN SFails(s, NOTFOUND)
                         ELSE IF s.items[e.r + 1].k = "dir" THEN [s |-> [s EXCEPT !.err = -1, !.serr = -1], a |-> e.ret]      \* nothing is said about it
                         ELSE LET a == Apply(Ctx(s.items, e.inp, 0, 0, FALSE), e.r + 1)
                              IN  [s |-> [s EXCEPT !.serr = IF a.ret < 0 THEN RULEABORT ELSE 0], a |-> a.ret]
    [] e.op = "err"   -> Does(s, IF s.err = -1 THEN e.ret ELSE s.err)
    [] e.op = "serr"  -> Does(s, IF s.serr = -1 THEN e.ret ELSE s.serr)
=============================================================================
