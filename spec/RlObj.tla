------------------------------- MODULE RlObj ---------------------------------
(* Objects, counted objects and collectors.  The state: the live objects, as a        *)
(* sequence of [id, kind, n, t, g]: kind "obj", "ref" (with count n and type t) or      *)
(* "gc"; g is the collector it is registered with, 0 none.  A collector is an object   *)
(* as well and may be registered itself.  Every step says what it returns and which     *)
(* objects it destroys.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Ids(s) == {s[k].id : k \in 1..Len(s)}
Has(s, id) == id \in Ids(s)
At(s, id) == CHOOSE k \in 1..Len(s) : s[k].id = id
Obj(s, id) == s[At(s, id)]
Members(s, S) == {s[k].id : k \in {k \in 1..Len(s) : s[k].g \in S}}
RECURSIVE With(_, _)
With(s, S) == LET m == S \cup Members(s, S) IN IF m = S THEN S ELSE With(s, m)
Without(s, S) == SelectSeq(s, LAMBDA x : x.id \notin S)
New(id, kind, n, t) == [id |-> id, kind |-> kind, n |-> n, t |-> t, g |-> 0]
Upd(s, id, x) == [s EXCEPT ![At(s, id)] = x]
Stay(s, r) == [s |-> s, ret |-> r, gone |-> {}]
Kill(s, S, r) == [s |-> Without(s, S), ret |-> r, gone |-> S]
CanDo(s, e) ==
  CASE e.op \in {"ref", "kref", "obj", "gc"} -> ~Has(s, e.id)
    [] e.op \in {"inc", "dec", "get", "type", "kind"} -> Has(s, e.id) /\ Obj(s, e.id).kind = "ref"
    [] e.op = "copy" -> Has(s, e.id) /\ Obj(s, e.id).kind = "ref" /\ ~Has(s, e.c)
    [] e.op = "add" -> Has(s, e.id) /\ Has(s, e.g) /\ Obj(s, e.id).g = 0 /\ Obj(s, e.g).kind = "gc" /\ e.g \notin With(s, {e.id})
    [] e.op \in {"collect", "count"} -> Has(s, e.id) /\ Obj(s, e.id).kind = "gc"
    [] OTHER -> Has(s, e.id)
Do(s, e) ==
  LET o == Obj(s, e.id)
  IN  CASE e.op = "ref" -> Stay(Append(s, New(e.id, "ref", e.c, 0)), 0)
        [] e.op = "kref" -> Stay(Append(s, New(e.id, "ref", 1, e.c)), e.c)
        [] e.op = "obj" -> Stay(Append(s, New(e.id, "obj", 0, 0)), 0)
        [] e.op = "gc" -> Stay(Append(s, New(e.id, "gc", 0, 0)), 0)
        [] e.op = "inc" -> Stay(Upd(s, e.id, [o EXCEPT !.n = @ + 1]), o.n + 1)
        [] e.op = "dec" -> IF o.n = 1 THEN Kill(s, {e.id}, 0) ELSE Stay(Upd(s, e.id, [o EXCEPT !.n = @ - 1]), o.n - 1)
        [] e.op = "get" -> Stay(s, o.n)
        [] e.op = "type" -> Stay(Upd(s, e.id, [o EXCEPT !.t = e.c]), e.c)
        [] e.op = "kind" -> Stay(s, o.t)
        [] e.op = "copy" -> Stay(Append(s, New(e.c, "ref", 1, o.t)), o.t)
        [] e.op = "add" -> Stay(Upd(s, e.id, [o EXCEPT !.g = e.g]), 0)
        [] e.op = "remove" -> Stay(Upd(s, e.id, [o EXCEPT !.g = 0]), 0)
        [] e.op = "where" -> Stay(s, o.g)
        [] e.op = "destroy" -> Kill(s, With(s, {e.id}), 0)
        [] e.op = "collect" -> Kill(s, With(s, {e.id}) \ {e.id}, 0)
        [] e.op = "count" -> Stay(s, Cardinality(Members(s, {e.id})))
=============================================================================
