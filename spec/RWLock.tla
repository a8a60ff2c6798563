------------------------------- MODULE RWLock -------------------------------
(***************************************************************************)
(* The algorithm of platform_batch_rwlock_* (src/platform_linux/platform.c)*)
(* for one index: a claim bit, a lock bit and a read counter per thread.   *)
(* A claimant gives up its read counter; the write lock drains all         *)
(* counters one after the other.  Every access of shared memory is a step. *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS T          \* 1..n
VARIABLES cl, lk, rc, pc, scan
vars == <<cl, lk, rc, pc, scan>>
N == Cardinality(T)
Init == cl = 0 /\ lk = 0 /\ rc = [t \in T |-> 0] /\ pc = [t \in T |-> "idle"] /\ scan = [t \in T |-> 0]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Add(t, d) == rc' = [rc EXCEPT ![t] = @ + d]

Get1(t) == pc[t] = "idle" /\ Go(t, "get1") /\ UNCHANGED <<cl, lk, rc, scan>>
GetW(t) == pc[t] = "get1" /\ lk = 0 /\ Go(t, "get2") /\ UNCHANGED <<cl, lk, rc, scan>>
Get2(t) == pc[t] = "get2" /\ Add(t, 1) /\ Go(t, "get3") /\ UNCHANGED <<cl, lk, scan>>
Get3(t) == pc[t] = "get3" /\ Go(t, IF lk = 0 THEN "read" ELSE "get4")
           /\ UNCHANGED <<cl, lk, rc, scan>>
Get4(t) == pc[t] = "get4" /\ Add(t, -1) /\ Go(t, "get1") /\ UNCHANGED <<cl, lk, scan>>
Unget(t) == pc[t] = "read" /\ Add(t, -1) /\ Go(t, "idle") /\ UNCHANGED <<cl, lk, scan>>
Try(t) == /\ pc[t] = "read"
          /\ Go(t, IF cl = 1 THEN "read" ELSE "try2")
          /\ cl' = 1 /\ UNCHANGED <<lk, rc, scan>>
Try2(t) == pc[t] = "try2" /\ Add(t, -1) /\ Go(t, "claim") /\ UNCHANGED <<cl, lk, scan>>
Lock(t) == pc[t] = "claim" /\ lk' = 1 /\ Go(t, "drain") /\ scan' = [scan EXCEPT ![t] = 1] /\ UNCHANGED <<cl, rc>>
Drain(t) == /\ pc[t] = "drain" /\ rc[scan[t]] = 0
            /\ IF scan[t] = N THEN Go(t, "lock") /\ scan' = [scan EXCEPT ![t] = 0]
                              ELSE scan' = [scan EXCEPT ![t] = @ + 1] /\ UNCHANGED pc
            /\ UNCHANGED <<cl, lk, rc>>
Unlock(t) == pc[t] = "lock" /\ lk' = 0 /\ Go(t, "claim") /\ UNCHANGED <<cl, rc, scan>>
Unclaim(t) == pc[t] = "claim" /\ Add(t, 1) /\ Go(t, "uncl2") /\ UNCHANGED <<cl, lk, scan>>
Uncl2(t) == pc[t] = "uncl2" /\ cl' = 0 /\ Go(t, "read") /\ UNCHANGED <<lk, rc, scan>>

Next == \E t \in T : \/ Get1(t) \/ GetW(t) \/ Get2(t) \/ Get3(t) \/ Get4(t) \/ Unget(t) \/ Try(t)
                     \/ Try2(t) \/ Lock(t) \/ Drain(t) \/ Unlock(t) \/ Unclaim(t) \/ Uncl2(t)
(* holders let go again *)
Fair == \A t \in T : /\ WF_vars(GetW(t)) /\ WF_vars(Get2(t)) /\ WF_vars(Get3(t)) /\ WF_vars(Get4(t))
                     /\ WF_vars(Try2(t)) /\ WF_vars(Drain(t)) /\ WF_vars(Unlock(t)) /\ WF_vars(Uncl2(t))
                     /\ WF_vars(Unget(t)) /\ SF_vars(Unclaim(t))
Spec == Init /\ [][Next]_vars /\ Fair

Exclusion == \A t, u \in T : (t # u /\ pc[t] = "lock") => pc[u] \notin {"read", "try2", "claim", "drain", "lock", "uncl2"}
OneClaim == Cardinality({t \in T : pc[t] \in {"try2", "claim", "drain", "lock", "uncl2"}}) <= 1
Counters == \A t \in T : rc[t] = IF pc[t] \in {"get3", "get4", "read", "try2", "uncl2"} THEN 1 ELSE 0
Bits == /\ (cl = 1) = (\E t \in T : pc[t] \in {"try2", "claim", "drain", "lock", "uncl2"})
        /\ (lk = 1) = (\E t \in T : pc[t] \in {"drain", "lock"})
LockComes == \A t \in T : pc[t] = "drain" ~> pc[t] = "lock"
=============================================================================
