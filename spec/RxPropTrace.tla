----------------------------- MODULE RxPropTrace ----------------------------
(* Accepts a recorded sequence of calls on a property tree iff RxProp answers so.            *)
EXTENDS RxProp, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Fresh
TNext == LET e == Traces[t].ev[i + 1]
             a == TLCEval(Do(s, e))
             ok == e.x = a.x /\ Same(e, e.ret, a.v) /\ e.log = a.log /\ \A ty \in DOMAIN a.s.vars : e.vars[ty] = a.s.vars[ty]
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1
             /\ s' = a.s
             /\ \/ ok
                \/ ~ok /\ PrintT(<<"STUCK", t, i + 1, "want", ToString(<<a.x, a.v, a.log, a.s.vars>>)>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
