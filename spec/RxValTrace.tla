----------------------------- MODULE RxValTrace -----------------------------
(* Accepts a recorded sequence of calls on three registers iff RxVal answers so.            *)
EXTENDS RxVal, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
NumLen(v) == Len(v.s) - (IF v.s[1] = 45 THEN 1 ELSE 0)
Extremes == {<<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>, <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>}      \* 2147483647, -2147483648
(* numbers that do not fit into what is asked for *)
Unfit(v, g) == v.t = "int" /\ CASE g \in {"int", "tint", "cint"} -> NumLen(v) > 9 /\ v.s \notin Extremes
                               [] g \in {"tfloat", "cfloat"} -> NumLen(v) > 6
                               [] g \in {"real", "treal", "creal"} -> NumLen(v) > 15
                               [] OTHER -> FALSE
Free(s1, e) == e.op = "get" /\ Follow(s1, e.p).ok /\ Unfit(Get1(Follow(s1, e.p).s, e.p), e.g)
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = <<Null, Null, Null>>
TNext == LET e == Traces[t].ev[i + 1]
             a == TLCEval(Do(s, e))
             ok == e.x = a.x /\ e.r = a.s /\ (e.ret = a.v \/ Free(s, e))
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1
             /\ Assert(Usable(e), <<"not a history", t, i>>)
             /\ s' = a.s
             /\ \/ ok
                \/ ~ok /\ PrintT(<<"STUCK", t, i + 1, "want", ToString(a)>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
