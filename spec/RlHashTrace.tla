----------------------------- MODULE RlHashTrace -----------------------------
(* Accepts a recorded sequence of calls on a hash table iff RlHash answers so.       *)
EXTENDS RlHash, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Empty
TNext == LET e == Traces[t].ev[i + 1]
             r == Step(s, e)
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1 /\ s' = r.s
             /\ \/ e.ret = r.ret
                \/ e.ret # r.ret /\ PrintT(<<"STUCK", t, i + 1, "want", ToString(r.ret)>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
