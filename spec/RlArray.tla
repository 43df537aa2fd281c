------------------------------- MODULE RlArray -------------------------------
(* Two growable arrays.  v: the elements (-1: not determined), hw: how many places   *)
(* were ever in use; a place never used before holds zero.  Plain arrays (op without *)
(* prefix) lose what lies behind their end; chunked arrays (kind "c") keep it, and    *)
(* writing behind the end is allowed (mem).                                          *)
EXTENDS Integers, Sequences, FiniteSets
Max(a, b) == IF a > b THEN a ELSE b
NewA == [v |-> <<>>, hw |-> 0]
Empty == <<NewA, NewA>>
SetLen(a, n) == [v |-> [k \in 1..n |-> IF k <= Len(a.v) THEN a.v[k] ELSE IF k > a.hw THEN 0 ELSE -1], hw |-> Max(a.hw, n)]
Insert(a, i, x) == IF i < Len(a.v)
                   THEN [v |-> SubSeq(a.v, 1, i) \o <<x>> \o SubSeq(a.v, i + 1, Len(a.v)), hw |-> Max(a.hw, Len(a.v) + 1)]
                   ELSE [SetLen(a, i + 1) EXCEPT !.v[i + 1] = x]
Replace(a, i, x) == IF i < Len(a.v) THEN [a EXCEPT !.v[i + 1] = x] ELSE Insert(a, i, x)
Delete(a, i) == IF i < Len(a.v) THEN [a EXCEPT !.v = SubSeq(@, 1, i) \o SubSeq(@, i + 2, Len(@))] ELSE a
MoveOk(a, d, s, n) == d + n <= Len(a.v) /\ s + n <= Len(a.v)
Move(a, d, s, n) == [a EXCEPT !.v = [k \in 1..Len(a.v) |-> IF k > d /\ k <= d + n THEN a.v[k - d + s] ELSE a.v[k]]]
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = -1 \/ a[k] = b[k]
Sorted(b) == \A k \in 1..Len(b) - 1 : b[k] <= b[k + 1]
Count(b, x) == Cardinality({k \in 1..Len(b) : b[k] = x})

(* chunked: mem is what the places hold, beyond the end too *)
At(m, k) == IF k <= Len(m) THEN m[k] ELSE 0
Write(m, i, x) == [k \in 1..Max(Len(m), i + 1) |-> IF k = i + 1 THEN x ELSE At(m, k)]

(* what a call does (s: both arrays, o: which one) and the value it answers           *)
R(a, ret) == [a |-> a, ret |-> ret]
Any == -100
Plain(a, e) ==
  CASE e.op = "new" -> R(NewA, 0)
    [] e.op \in {"add", "push"} -> R(Insert(a, Len(a.v), e.x), IF e.op = "add" THEN Len(a.v) ELSE Len(a.v) + 1)
    [] e.op = "ins" -> R(Insert(a, e.i, e.x), e.i)
    [] e.op = "repl" -> R(Replace(a, e.i, e.x), e.i)
    [] e.op = "setlen" -> R(SetLen(a, e.i), e.i)
    [] e.op = "rmlast" -> LET n == Max(Len(a.v) - 1, 0) IN R(SetLen(a, n), n)
    [] e.op = "pop" -> IF a.v = <<>> THEN R(a, Any) ELSE R(SetLen(a, Len(a.v) - 1), IF a.v[Len(a.v)] = -1 THEN Any ELSE a.v[Len(a.v)])
    [] e.op = "last" -> R(a, IF a.v = <<>> THEN -3 ELSE IF a.v[Len(a.v)] = -1 THEN Any ELSE a.v[Len(a.v)])
    [] e.op = "del" -> R(Delete(a, e.i), 0)
    [] e.op = "move" -> IF MoveOk(a, e.i, e.j, e.x) THEN R(Move(a, e.i, e.j, e.x), 0) ELSE R(a, -1)
    [] e.op = "expand" -> R(a, 0)
    [] e.op = "slotset" -> IF e.i < Len(a.v) THEN R([a EXCEPT !.v[e.i + 1] = e.x], 0) ELSE R([a EXCEPT !.hw = Max(@, e.i + 1)], 0)
    [] OTHER -> R(a, 0)
Chunked(a, e) ==
  LET n == Len(a.v)
      W(i, x, m) == LET w == Write(a.mem, i, x) IN [v |-> [k \in 1..m |-> At(w, k)], hw |-> 0, mem |-> w]
  IN  CASE e.op = "new" -> R([v |-> <<>>, hw |-> 0, mem |-> <<>>], 0)
        [] e.op = "add" -> R(W(n, e.x, n + 1), n)
        [] e.op = "repl" -> R(W(e.i, e.x, n), e.i)
        [] e.op = "slotset" -> R(W(e.i, e.x, n), 0)
        [] e.op = "setlen" -> R([a EXCEPT !.v = [k \in 1..e.i |-> At(a.mem, k)]], 0)
        [] e.op = "inc" -> R([a EXCEPT !.v = [k \in 1..n + 1 |-> At(a.mem, k)]], 0)
        [] OTHER -> R(a, 0)
=============================================================================
