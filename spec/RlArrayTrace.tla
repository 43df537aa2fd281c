---------------------------- MODULE RlArrayTrace -----------------------------
(* Accepts a recorded sequence of calls on two arrays iff every answer (value,       *)
(* length, addresses moved) and every listing is the one RlArray gives.              *)
EXTENDS RlArray, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Empty
Kind == Traces[t].kind
TNext == LET e == Traces[t].ev[i + 1]
             a == s[e.o + 1]
             r == IF Kind = "c" THEN Chunked(a, e) ELSE Plain(a, e)
         IN  /\ i < Len(Traces[t].ev) /\ t' = t /\ i' = i + 1
             /\ CASE e.op = "dump" -> s' = s
                  [] e.op = "copy" -> s' = [s EXCEPT ![2 - e.o] = [a EXCEPT !.hw = IF Kind = "c" THEN 0 ELSE Len(a.v)]]
                  [] e.op = "sort" -> s' = [s EXCEPT ![e.o + 1].v = e.list]        \* listed right behind sorting
                  [] OTHER -> s' = [s EXCEPT ![e.o + 1] = r.a]
             /\ LET ok == CASE e.op = "dump" -> Same(a.v, e.list)
                            [] e.op = "sort" -> /\ Len(e.list) = Len(a.v) /\ Sorted(e.list)
                                                /\ (\A k \in 1..Len(a.v) : a.v[k] # -1) => \A k \in 1..Len(a.v) : Count(e.list, a.v[k]) = Count(a.v, a.v[k])
                            [] e.op = "copy" -> e.ret[1] = 0 /\ e.ret[2] = Len(a.v)
                            [] OTHER -> (r.ret = Any \/ e.ret[1] = r.ret) /\ e.ret[2] = Len(r.a.v) /\ (Len(e.ret) = 3 => e.ret[3] = 0)
                IN  \/ ok
                    \/ ~ok /\ PrintT(<<"STUCK", t, i + 1, "want", ToString(IF e.op \in {"dump", "sort", "copy"} THEN a ELSE r)>>) /\ FALSE
             /\ (i + 1 = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
TSpec == TInit /\ [][TNext]_<<t, i, s>>
=============================================================================
