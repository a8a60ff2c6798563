----------------------------- MODULE AllocScan -----------------------------
(***************************************************************************)
(* Design of the extent allocator: a shared hand moves around the device;  *)
(* a thread advances it one extent at a time, tries to take the extent if  *)
(* it looks free, and gives up when it has itself advanced the hand to the *)
(* extent before the one where it started.                                 *)
(* Shows: an extent is never owned twice; and the rule by which Alloc.tla  *)
(* judges failing calls: every extent that was free during the whole call  *)
(* is about to be taken by another pending call.                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, N, Calls
Exts == 0 .. N - 1
VARIABLES hand, taken, pc, h, first, own, idle, left, bad
vars == <<hand, taken, pc, h, first, own, idle, left, bad>>
Init == /\ hand = 0 /\ taken = [e \in Exts |-> FALSE]
        /\ pc = [t \in Threads |-> "rest"] /\ h = [t \in Threads |-> 0] /\ first = [t \in Threads |-> 0]
        /\ own = [t \in Threads |-> {}] /\ idle = [t \in Threads |-> {}]
        /\ left = [t \in Threads |-> Calls] /\ bad = FALSE
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Begin(t) == /\ pc[t] = "rest" /\ left[t] > 0
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ idle' = [idle EXCEPT ![t] = {e \in Exts : ~taken[e]}]
            /\ Go(t, "start") /\ UNCHANGED <<hand, taken, h, first, own, bad>>
Start(t) == /\ pc[t] = "start" /\ first' = [first EXCEPT ![t] = hand]
            /\ Go(t, "move") /\ UNCHANGED <<hand, taken, h, own, idle, left, bad>>
Move(t) == /\ pc[t] = "move" /\ h' = [h EXCEPT ![t] = hand] /\ hand' = (hand + 1) % N
           /\ Go(t, "look") /\ UNCHANGED <<taken, first, own, idle, left, bad>>
Look(t) == /\ pc[t] = "look"
           /\ Go(t, IF taken[h[t]] THEN "more" ELSE "take")
           /\ UNCHANGED <<hand, taken, h, first, own, idle, left, bad>>
Take(t) == /\ pc[t] = "take"
           /\ IF taken[h[t]] THEN Go(t, "more") /\ UNCHANGED <<taken, own, idle>>
              ELSE /\ taken' = [taken EXCEPT ![h[t]] = TRUE]
                   /\ own' = [own EXCEPT ![t] = @ \cup {h[t]}]
                   /\ idle' = [u \in Threads |-> idle[u] \ {h[t]}]
                   /\ Go(t, "took")
           /\ UNCHANGED <<hand, h, first, left, bad>>
More(t) == /\ pc[t] = "more"
           /\ Go(t, IF (h[t] + 1) % N = first[t] THEN "fail" ELSE "move")
           /\ UNCHANGED <<hand, taken, h, first, own, idle, left, bad>>
Pending(t) == {u \in Threads \ {t} : pc[u] # "rest"}
Return(t) == /\ pc[t] \in {"took", "fail"}
             /\ bad' = (bad \/ (pc[t] = "fail" /\ Cardinality(idle[t]) > Cardinality(Pending(t))))
             /\ idle' = [idle EXCEPT ![t] = {}]
             /\ Go(t, "rest") /\ UNCHANGED <<hand, taken, h, first, own, left>>
Drop(t) == /\ pc[t] = "rest"
           /\ \E e \in own[t] : own' = [own EXCEPT ![t] = @ \ {e}] /\ taken' = [taken EXCEPT ![e] = FALSE]
           /\ UNCHANGED <<hand, pc, h, first, idle, left, bad>>
Next == \E t \in Threads : Begin(t) \/ Start(t) \/ Move(t) \/ Look(t) \/ Take(t) \/ More(t) \/ Return(t) \/ Drop(t)
Spec == Init /\ [][Next]_vars
OneOwner == \A t, u \in Threads : t # u => own[t] \cap own[u] = {}
Counted == \A e \in Exts : taken[e] <=> \E t \in Threads : e \in own[t]
FailRule == ~bad
=============================================================================
