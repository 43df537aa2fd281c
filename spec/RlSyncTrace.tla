----------------------------- MODULE RlSyncTrace -----------------------------
(* Accepts a recorded history of concurrent calls iff there is a moment between each  *)
(* call and its return at which it took effect as RlSync says (linearizability), and  *)
(* the object was destroyed exactly once, by the call that let go last.  Events are    *)
(* <<thread, phase, operation, argument, value>>; phase 0 call, 1 return, 2 the object  *)
(* is destroyed; 3 (destroyed memory is touched) and 4 (no end) are never right.      *)
EXTENDS RlSync, TLC, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, g, p
vars == <<t, i, g, p>>
Idle == [st |-> "idle", op |-> "", arg |-> 0, v |-> 0]
TInit == /\ t \in 1..Len(Traces) /\ i = 0
         /\ g = Init0(Traces[t].kind, Traces[t].threads)
         /\ p = [k \in 0..Traces[t].threads - 1 |-> Idle]
Ends == Traces[t].kind = "ref" => (g.dead <=> g.n = 0)
TakeEffect == \E k \in DOMAIN p : /\ p[k].st = "called"
                                  /\ \E r \in Effects(g, k, p[k].op, p[k].arg) : g' = r.g /\ p' = [p EXCEPT ![k].st = "done", ![k].v = r.v]
                                  /\ UNCHANGED <<t, i>>
Observe == LET ev == Traces[t].ev
               e == ev[i + 1]
           IN  /\ i < Len(ev) /\ i' = i + 1 /\ t' = t
               /\ CASE e[2] = 0 -> p[e[1]].st = "idle" /\ p' = [p EXCEPT ![e[1]] = [st |-> "called", op |-> e[3], arg |-> e[4], v |-> 0]] /\ g' = g
                    [] e[2] = 1 -> p[e[1]].st = "done" /\ p[e[1]].v = e[5] /\ p' = [p EXCEPT ![e[1]] = Idle] /\ g' = g
                    [] e[2] = 2 -> /\ ~g.dead /\ g.n = 0 /\ p[e[1]].st = "done" /\ p[e[1]].op = "D" /\ p[e[1]].v = 0
                                   /\ g' = [g EXCEPT !.dead = TRUE] /\ p' = p
                    [] OTHER -> FALSE
Finish == i = Len(Traces[t].ev) /\ i' = i + 1 /\ Ends /\ (\A k \in DOMAIN p : p[k].st = "idle") /\ PrintT(<<"DONE", t>>) /\ UNCHANGED <<t, g, p>>
TNext == TakeEffect \/ Observe \/ Finish
TSpec == TInit /\ [][TNext]_vars
=============================================================================
