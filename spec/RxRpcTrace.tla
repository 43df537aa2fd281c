----------------------------- MODULE RxRpcTrace -----------------------------
(* Accepts a recorded sequence of registrations and requests iff RxRpc answers so.          *)
EXTENDS RxRpc, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Fresh
TNext == LET e == Traces[t].ev[i + 1]
             ok == Ok(s, e)
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1
             /\ s' = Do(s, e)
             /\ \/ ok
                \/ ~ok /\ PrintT(<<"STUCK", t, i + 1, "want", ToString(IF e.op = "call" THEN Want(s, e) ELSE e.op)>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
