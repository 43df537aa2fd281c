------------------------------- MODULE RlList --------------------------------
(* Two linked lists of numbered links as sequences; a link is on one list at most.    *)
EXTENDS Integers, Sequences, SequencesExt
On(s, x) == Contains(s, x)
At(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Elem(s, k) == IF k \in 1..Len(s) THEN s[k] ELSE 0
CanDo(l, e) == LET s == l[e.o + 1] IN
  CASE e.op \in {"addh", "addt"} -> \A j \in {1, 2} : ~On(l[j], e.x)
    [] e.op = "addafter" -> (\A j \in {1, 2} : ~On(l[j], e.x)) /\ On(s, e.y)
    [] e.op \in {"del", "next", "prev"} -> On(s, e.x)
    [] e.op = "spliceat" -> On(s, e.x)
    [] OTHER -> TRUE
Do(l, e) ==
  LET s == l[e.o + 1]
      Is(q, r) == [l |-> [l EXCEPT ![e.o + 1] = q], ret |-> r]
      Ret(r) == [l |-> l, ret |-> r]
      Into(k) == [l |-> [l EXCEPT ![e.o + 1] = SubSeq(s, 1, k) \o l[2 - e.o] \o SubSeq(s, k + 1, Len(s)), ![2 - e.o] = <<>>], ret |-> 0]
  IN  CASE e.op = "addh" -> Is(<<e.x>> \o s, 0)
        [] e.op = "addt" -> Is(Append(s, e.x), 0)
        [] e.op = "addafter" -> Is(SubSeq(s, 1, At(s, e.y)) \o <<e.x>> \o SubSeq(s, At(s, e.y) + 1, Len(s)), 0)
        [] e.op = "del" -> Is(Remove(s, e.x), 0)
        [] e.op = "first" -> Ret(Elem(s, 1))
        [] e.op = "last" -> Ret(Elem(s, Len(s)))
        [] e.op = "next" -> Ret(Elem(s, At(s, e.x) + 1))
        [] e.op = "prev" -> Ret(Elem(s, At(s, e.x) - 1))
        [] e.op = "count" -> Ret(Len(s))
        [] e.op = "empty" -> Ret(IF s = <<>> THEN 1 ELSE 0)
        [] e.op = "splice" -> Into(0)
        [] e.op = "spliceat" -> Into(At(s, e.x))
        [] e.op = "walk" -> Ret(s)
        [] e.op = "back" -> Ret(Reverse(s))
=============================================================================
