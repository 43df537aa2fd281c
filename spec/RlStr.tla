-------------------------------- MODULE RlStr --------------------------------
(* String objects: a slot holds a sequence of bytes without a zero, or nothing yet.   *)
(* Bytes handed in are used as far as the size says and as far as the first zero.       *)
EXTENDS Integers, Sequences, SequencesExt
Nil == <<-1>>
Zero(t) == {k \in 1..Len(t) : t[k] = 0}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Text(t) == IF t = Nil THEN <<>> ELSE IF Zero(t) = {} THEN t ELSE SubSeq(t, 1, Least(Zero(t)) - 1)
Sized(t, n) == IF t = Nil THEN <<>> ELSE Text(SubSeq(t, 1, IF n < Len(t) THEN n ELSE Len(t)))
(* decimal numbers                                                                   *)
RECURSIVE Digits(_), NoZeros(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
NoZeros(t) == IF Len(t) > 1 /\ t[1] = 48 THEN NoZeros(Tail(t)) ELSE t
Canon(t) == IF t[1] = 45 THEN IF NoZeros(Tail(t)) = <<48>> THEN <<48>> ELSE <<45>> \o NoZeros(Tail(t)) ELSE NoZeros(t)
(* n 64ths with six digits behind the point                                           *)
Six(n) == LET d == Digits(n) IN [k \in 1..(6 - Len(d)) |-> 48] \o d
Parts(n) == (IF n < 0 THEN <<45>> ELSE <<>>) \o LET m == IF n < 0 THEN -n ELSE n IN Digits(m \div 64) \o <<46>> \o Six((m % 64) * 15625)
Usable(s, e) == CASE e.op \in {"cp", "ocopy"} -> s[e.a] # Nil
                  [] e.op = "cat" -> s[e.a] # Nil /\ s[e.b] # Nil
                  [] e.op \in {"catl", "get"} -> s[e.o] # Nil
                  [] OTHER -> TRUE
Next1(s, e) ==
  CASE e.op = "new" -> Text(e.t)
    [] e.op = "len" -> Sized(e.t, e.n)
    [] e.op \in {"cp", "ocopy"} -> s[e.a]
    [] e.op = "cat" -> s[e.a] \o s[e.b]
    [] e.op = "catl" -> s[e.o] \o Sized(e.t, e.n)
    [] e.op = "int" -> Canon(e.t)
    [] e.op = "dbl" -> Parts(e.n)
    [] e.op = "get" -> s[e.o]
Step(s, e) == [s EXCEPT ![e.o] = Next1(s, e)]
(* size, bytes, the byte behind them, whether it says it is empty                       *)
Ret(s, e) == LET x == Step(s, e)[e.o] IN <<Len(x), x, 0, IF x = <<>> THEN 1 ELSE 0>>
=============================================================================
