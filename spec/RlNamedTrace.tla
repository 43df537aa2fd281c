---------------------------- MODULE RlNamedTrace -----------------------------
(* Accepts a recorded sequence of calls on two named arrays iff RlNamed answers so.   *)
EXTENDS RlNamed, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Empty
TNext == LET e == Traces[t].ev[i + 1]
             r == Step(s[e.o + 1], e)
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1
             /\ s' = IF e.op = "copy" THEN [s EXCEPT ![2 - e.o] = s[e.o + 1]] ELSE [s EXCEPT ![e.o + 1] = r.a]
             /\ \/ Free(s[e.o + 1], e) \/ e.ret = r.ret
                \/ ~Free(s[e.o + 1], e) /\ e.ret # r.ret /\ PrintT(<<"STUCK", t, i + 1, "want", ToString(r.ret)>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
