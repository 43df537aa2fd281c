------------------------------ MODULE RlSpinMC -------------------------------
(* The algorithm step by step: a lock taken by compare-and-exchange in a loop, and a   *)
(* reference count kept under it by read, write and release, the last holder           *)
(* destroying the object with the lock still closed.  All interleavings.              *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, MaxHold
VARIABLES w, cnt, hold, pc, tmp, dead, bad
vars == <<w, cnt, hold, pc, tmp, dead, bad>>
Init == /\ w = 0 /\ cnt = Cardinality(Threads) /\ hold = [t \in Threads |-> 1] /\ pc = [t \in Threads |-> "out"]
        /\ tmp = [t \in Threads |-> 0] /\ dead = 0 /\ bad = FALSE
Touch == bad' = (bad \/ dead > 0)
(* a thread that holds a reference begins to take another one, to give one back, or    *)
(* tries the lock                                                                   *)
Begin(t) == /\ pc[t] = "out" /\ hold[t] > 0
            /\ \/ hold[t] < MaxHold /\ pc' = [pc EXCEPT ![t] = "inc"]
               \/ pc' = [pc EXCEPT ![t] = "dec"]
               \/ pc' = [pc EXCEPT ![t] = "try"]
            /\ UNCHANGED <<w, cnt, hold, tmp, dead, bad>>
Inside == {"inc1", "inc2", "inc3", "dec1", "dec2", "dec3", "tried"}
Next1(x) == CASE x = "inc" -> "inc1" [] x = "dec" -> "dec1" [] x = "try" -> "tried"
Cas(t) == /\ pc[t] \in {"inc", "dec", "try"}
          /\ IF w = 0 THEN w' = 1 /\ pc' = [pc EXCEPT ![t] = Next1(@)]
             ELSE w' = w /\ pc' = [pc EXCEPT ![t] = IF @ = "try" THEN "out" ELSE @]
          /\ Touch /\ UNCHANGED <<cnt, hold, tmp, dead>>
Read(t) == /\ pc[t] \in {"inc1", "dec1"} /\ tmp' = [tmp EXCEPT ![t] = cnt] /\ pc' = [pc EXCEPT ![t] = IF @ = "inc1" THEN "inc2" ELSE "dec2"]
           /\ Touch /\ UNCHANGED <<w, cnt, hold, dead>>
Write(t) == /\ pc[t] \in {"inc2", "dec2"} /\ cnt' = IF pc[t] = "inc2" THEN tmp[t] + 1 ELSE tmp[t] - 1
            /\ hold' = [hold EXCEPT ![t] = IF pc[t] = "inc2" THEN @ + 1 ELSE @ - 1]
            /\ pc' = [pc EXCEPT ![t] = IF @ = "inc2" THEN "inc3" ELSE "dec3"] /\ Touch /\ UNCHANGED <<w, tmp, dead>>
Leave(t) == /\ pc[t] \in {"inc3", "dec3", "tried"} /\ pc' = [pc EXCEPT ![t] = "out"]
            /\ IF pc[t] = "dec3" /\ cnt = 0 THEN dead' = dead + 1 /\ w' = w ELSE w' = 0 /\ dead' = dead
            /\ Touch /\ UNCHANGED <<cnt, hold, tmp>>
Step(t) == Begin(t) \/ Cas(t) \/ Read(t) \/ Write(t) \/ Leave(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Read(t) \/ Write(t) \/ Leave(t)) /\ SF_vars(Cas(t) /\ w = 0)

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN hold[t] + Sum(S \ {t})
Mutex == Cardinality({t \in Threads : pc[t] \in Inside}) <= 1
Counted == (\A t \in Threads : pc[t] \notin {"inc2", "dec2"}) => cnt = Sum(Threads)
Once == dead <= 1 /\ (dead = 1 => Sum(Threads) = 0)
NoTouch == ~bad
(* who waits gets in: nobody waits for ever *)
GetsIn == \A t \in Threads : (pc[t] = "inc" ~> pc[t] # "inc") /\ (pc[t] = "dec" ~> pc[t] # "dec")
=============================================================================
