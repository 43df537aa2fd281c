---------------------------- MODULE RvmLinkTrace -----------------------------
(* Accepts a recorded sequence of calls of the code generator iff every answer is   *)
(* one RvmLink allows.                                                              *)
EXTENDS RvmLink, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Empty
TNext == LET ev == Traces[t].ev
             e == ev[i + 1]
             r == Step(s, e)
         IN  /\ i < Len(ev) /\ t' = t
             /\ \/ r.ok
                \/ ~r.ok /\ PrintT(<<"STUCK", t, i + 1, "state", ToJson(s)>>) /\ FALSE
             /\ i' = i + 1 /\ s' = r.s
             /\ (i + 1 = Len(ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
