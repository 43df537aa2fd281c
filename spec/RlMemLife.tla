------------------------------ MODULE RlMemLife ------------------------------
(* Judges the account over whole histories of the components: c.a holds it before     *)
(* the first call, after every call, and after everything created was destroyed.  In     *)
(* between it is what the live objects take, never less than at the start; in the end    *)
(* nothing is left.                                                                 *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT G
VARIABLES i, g
Ok(c) == /\ Len(c.a) >= 2
         /\ \A k \in 1..Len(c.a) : c.a[k] >= c.a[1]
         /\ c.a[Len(c.a)] = c.a[1]
Why(c) == ToString(<<c.a[1], c.a[Len(c.a)]>>)
Verdict(n) == IF Ok(Cases[n]) THEN TRUE ELSE PrintT(<<"REJECT", n, "start and end", Why(Cases[n])>>)
JInit == g \in 1..G /\ i = 0
JNext == LET n == (IF i = 0 THEN g ELSE i + G)
         IN  /\ n <= Len(Cases) /\ Verdict(n) /\ i' = n /\ g' = g
JSpec == JInit /\ [][JNext]_<<i, g>>
=============================================================================
