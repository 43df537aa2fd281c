----------------------------- MODULE RlObjTrace ------------------------------
(* Accepts a recorded history of objects iff RlObj answers and destroys the same,     *)
(* every object at most once.                                                       *)
EXTENDS RlObj, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = <<>>
TNext == LET e == Traces[t].ev[i + 1]
             r == Do(s, e)
             ok == e.ret = r.ret /\ Len(e.gone) = Cardinality(r.gone) /\ {e.gone[k] : k \in 1..Len(e.gone)} = r.gone
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1
             /\ Assert(CanDo(s, e), <<"not a history", t, i>>)
             /\ s' = r.s
             /\ \/ ok
                \/ ~ok /\ PrintT(<<"STUCK", t, i + 1, "want", ToString(<<r.ret, r.gone>>)>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
