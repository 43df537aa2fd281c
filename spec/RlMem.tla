-------------------------------- MODULE RlMem --------------------------------
(* The memory account.  Every live block is booked with what it cost when it was      *)
(* allocated: at least its bytes, and little more; giving it back takes exactly that     *)
(* off again.  The greatest account is kept until it is reset.                         *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Sum(_)
Sum(b) == IF b = <<>> THEN 0 ELSE b[1].cost + Sum(Tail(b))
Has(b, id) == \E k \in 1..Len(b) : b[k].id = id
At(b, id) == CHOOSE k \in 1..Len(b) : b[k].id = id
Drop(b, id) == LET k == At(b, id) IN SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b))
Larger(a, b) == IF a > b THEN a ELSE b
Empty(base) == [base |-> base, b |-> <<>>, max |-> base]
Account(s) == s.base + Sum(s.b)
Bytes(e) == IF e.op = "cal" THEN e.n * e.z ELSE e.n
Slack(e) == IF e.op = "cal" THEN 80 + e.z ELSE 64
Takes(e) == e.op \in {"mal", "zm", "cal", "re"}
CanDo(s, e) == CASE e.op \in {"mal", "zm", "cal"} -> ~Has(s.b, e.id)
                 [] e.op = "free" -> Has(s.b, e.id)
                 [] OTHER -> TRUE
Rest(s, e) == IF e.op \in {"re", "free"} /\ Has(s.b, e.id) THEN Drop(s.b, e.id) ELSE s.b
(* cost: what the new block is booked with                                            *)
Fair(e, cost) == ~Takes(e) \/ cost \in Bytes(e)..(Bytes(e) + Slack(e))
Do(s, e, cost) ==
  LET b == IF Takes(e) THEN Append(Rest(s, e), [id |-> e.id, cost |-> cost]) ELSE Rest(s, e)
      a == s.base + Sum(b)
  IN  [s EXCEPT !.b = b, !.max = IF e.op = "reset" THEN a ELSE Larger(@, a)]
CostSeen(s, e) == e.ret[1] - s.base - Sum(Rest(s, e))
Right(s, e) == LET c == CostSeen(s, e)
                   t == Do(s, e, c)
               IN  /\ Fair(e, c)
                   /\ e.ret[1] = Account(t)
                   /\ e.ret[2] = t.max
                   /\ e.ret[3] = 1              \* contents: zeros, or as far as before
=============================================================================
