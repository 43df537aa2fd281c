------------------------------ MODULE RlStress -------------------------------
(* What is left after threads of the processor each did the same calls `each` times:  *)
(* none was lost, none happened inside another.  The old values an addition returns     *)
(* are all different, so with none lost every count from 0 to the last was seen once.    *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
Total(c) == c.threads * c.each
Want(c) ==
  CASE c.what = "add" -> <<3 * Total(c), 1>>            \* the word at the end; all old values different
    [] c.what = "sub" -> <<-3 * Total(c), 1>>
    [] c.what = "cas" -> <<Total(c), Total(c)>>         \* the word; how many exchanges succeeded
    [] c.what = "xchg" -> <<Total(c), 1>>               \* values that came back or are left; all different
    [] c.what = "lock" -> <<Total(c), 0>>               \* a counter kept under the lock; times two were inside
    [] c.what = "try" -> <<0, 0>>                       \* entries minus counted; times two were inside
    [] c.what = "mem" -> <<0, 1>>                       \* the account less what it was before; the greatest is not less than that
    [] c.what = "ref" -> <<1, 1>>                       \* releases told they were the last; times destroyed
CONSTANT G
VARIABLES i, g
Verdict(k) == IF Cases[k].obs = Want(Cases[k]) THEN TRUE ELSE PrintT(<<"REJECT", k, "want", ToString(Want(Cases[k]))>>)
JInit == g \in 1..G /\ i = 0
JNext == LET n == (IF i = 0 THEN g ELSE i + G)
         IN  /\ n <= Len(Cases) /\ Verdict(n) /\ i' = n /\ g' = g
JSpec == JInit /\ [][JNext]_<<i, g>>
=============================================================================
