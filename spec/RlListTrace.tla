----------------------------- MODULE RlListTrace -----------------------------
(* Accepts a recorded sequence of list calls iff RlList answers so.                   *)
EXTENDS RlList, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = <<<<>>, <<>>>>
TNext == LET e == Traces[t].ev[i + 1]
             r == Do(s, e)
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1
             /\ Assert(CanDo(s, e), <<"not a history", t, i>>)
             /\ s' = r.l
             /\ \/ e.ret = r.ret
                \/ e.ret # r.ret /\ PrintT(<<"STUCK", t, i + 1, "want", ToString(r.ret)>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
