---------------------------- MODULE RvmScopeTrace ----------------------------
(* Accepts a recorded sequence of calls on scopes iff every answer is the one        *)
(* RvmScope gives.                                                                  *)
EXTENDS RvmScope, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Empty
TNext == LET ev == Traces[t].ev
             e == ev[i + 1]
         IN  /\ i < Len(ev) /\ t' = t
             /\ e.op = "pop" => s.marks # <<>>
             /\ s' = Step(s, e)
             /\ LET want == CASE e.op \in {"push", "pop"} -> Len(s'.marks)
                              [] e.op \in {"off", "ptr"} -> Len(s'.defs)
                              [] OTHER -> Answer(s, e)
                IN  \/ e.ret = want
                    \/ e.ret # want /\ PrintT(<<"STUCK", t, i + 1, "want", ToString(want)>>) /\ FALSE
             /\ i' = i + 1
             /\ (i + 1 = Len(ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
