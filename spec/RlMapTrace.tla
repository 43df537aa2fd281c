----------------------------- MODULE RlMapTrace -----------------------------
(* Accepts a recorded sequence of calls on a map iff RlMap answers so.       *)
EXTENDS RlMap, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Empty
TNext == LET e == Traces[t].ev[i + 1]
             r == Step(s, e)
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1 /\ s' = r.s
             /\ \/ r.ok
                \/ ~r.ok /\ PrintT(<<"STUCK", t, i + 1, "state", ToString(s)>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
