----------------------------- MODULE RlStrTrace ------------------------------
(* Accepts a recorded sequence of calls on four strings iff RlStr answers so.         *)
EXTENDS RlStr, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = [k \in 1..4 |-> Nil]
TNext == LET e == Traces[t].ev[i + 1]
             ok == e.ret = Ret(s, e)
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1
             /\ Assert(Usable(s, e), <<"not a history", t, i>>)
             /\ s' = Step(s, e)
             /\ \/ ok
                \/ ~ok /\ PrintT(<<"STUCK", t, i + 1, "want", ToString(Ret(s, e))>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
