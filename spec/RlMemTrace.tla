----------------------------- MODULE RlMemTrace ------------------------------
(* Accepts a recorded history of allocations iff the account is RlMem's.              *)
EXTENDS RlMem, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 1 /\ s = Empty(Traces[t].ev[1].ret[1])
TNext == LET e == Traces[t].ev[i + 1]
             ok == Right(s, e)
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1
             /\ Assert(CanDo(s, e), <<"not a history", t, i>>)
             /\ s' = Do(s, e, CostSeen(s, e))
             /\ \/ ok
                \/ ~ok /\ PrintT(<<"STUCK", t, i + 1, "have", ToString(<<Account(s), s.max>>)>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
