----------------------------- MODULE RpaLifeTrace ----------------------------
(* Accepts a recorded sequence of calls iff every answer is the one of RpaLife.     *)
EXTENDS RpaLife, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Init0
TNext == LET ev == Traces[t].ev
             e == ev[i + 1]
             r == Step(s, e)
         IN  /\ i < Len(ev) /\ t' = t
             /\ \/ r.a = e.ret
                \/ r.a # e.ret /\ PrintT(<<"STUCK", t, i + 1, "want", r.a, "got", e.ret>>) /\ FALSE
             /\ i' = i + 1 /\ s' = r.s
             /\ (i + 1 = Len(ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
