---------------------------- MODULE RWLockTrace ----------------------------
(***************************************************************************)
(* What the modes of a reader-writer lock with an intermediate claim mean, *)
(* and validation of recorded uses of the real ones against it (the batch  *)
(* locks of the platform and the page locks of the cache).                 *)
(*                                                                         *)
(* Acquisitions are recorded after they return and releases before they    *)
(* are called, so the recorded holds are part of the real ones and two     *)
(* recorded holds that overlap really did.                                 *)
(*   mode[i][t]: "n" none, "r" shared, "c" claim, "x" exclusive,           *)
(*               "u" between a claim and the shared lock (in a call)       *)
(*   may[i][t]:  t holds or is about to hold the claim of i                *)
(*   seen[i][t]: another thread had `may` set during t's current try       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES mode, may, seen, l
vars == <<mode, may, seen, l>>
ev == Trace[l]

(* sparse functions: absent means none / FALSE *)
None == [k \in {} |-> 0]
Mode(i, t) == IF <<i, t>> \in DOMAIN mode THEN mode[<<i, t>>] ELSE "n"
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Del(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
Others(i, t) == {mode[k] : k \in {k \in DOMAIN mode : k[1] = i /\ k[2] # t}}
MayOthers(i, t) == \E k \in may : k[1] = i /\ k[2] # t
(* threads whose try or loop is running on i see that t may claim now *)
See(i, t) == seen' = [k \in DOMAIN seen |-> seen[k] \/ (k[1] = i /\ k[2] # t)]

Init == mode = None /\ may = {} /\ seen = None /\ l = 1

Get(i, t) == /\ Mode(i, t) = "n"
             /\ "x" \notin Others(i, t)
             /\ mode' = Put(mode, <<i, t>>, "r")
             /\ UNCHANGED <<may, seen>>
Unget(i, t) == /\ Mode(i, t) = "r"
               /\ "x" \notin Others(i, t)
               /\ mode' = Del(mode, <<i, t>>)
               /\ UNCHANGED <<may, seen>>
Try(i, t) == /\ Mode(i, t) = "r"
             /\ may' = may \cup {<<i, t>>}
             /\ seen' = Put([k \in DOMAIN seen |-> seen[k] \/ (k[1] = i /\ k[2] # t)],
                            <<i, t>>, MayOthers(i, t))
             /\ UNCHANGED mode
(* may give up its shared lock while it waits *)
Loop(i, t) == /\ Mode(i, t) = "r"
              /\ may' = may \cup {<<i, t>>}
              /\ See(i, t)
              /\ mode' = Put(mode, <<i, t>>, "u")
Claim(i, t) == /\ Mode(i, t) \in {"r", "u"}
               /\ Others(i, t) \cap {"c", "x"} = {}
               /\ mode' = Put(mode, <<i, t>>, "c")
               /\ seen' = Del(seen, <<i, t>>)
               /\ UNCHANGED may
(* refused: somebody else had it or tried to get it meanwhile, and the     *)
(* caller still holds its shared lock                                      *)
Fail(i, t) == /\ Mode(i, t) = "r"
              /\ <<i, t>> \in DOMAIN seen /\ seen[<<i, t>>]
              /\ "x" \notin Others(i, t)
              /\ may' = may \ {<<i, t>>}
              /\ seen' = Del(seen, <<i, t>>)
              /\ UNCHANGED mode
Lock(i, t) == /\ Mode(i, t) = "c"
              /\ Others(i, t) \cap {"r", "c", "x"} = {}
              /\ mode' = Put(mode, <<i, t>>, "x")
              /\ UNCHANGED <<may, seen>>
Unlock(i, t) == /\ Mode(i, t) = "x"
                /\ Others(i, t) \cap {"r", "c", "x"} = {}
                /\ mode' = Put(mode, <<i, t>>, "c")
                /\ UNCHANGED <<may, seen>>
Full(i, t) == /\ Mode(i, t) = "x"
              /\ Others(i, t) \cap {"r", "c", "x"} = {}
              /\ mode' = Del(mode, <<i, t>>)
              /\ UNCHANGED <<may, seen>>
Freed(i, t) == /\ may' = may \ {<<i, t>>} /\ UNCHANGED <<mode, seen>>
Unclaim(i, t) == /\ Mode(i, t) = "c"
                 /\ Others(i, t) \cap {"c", "x"} = {}
                 /\ mode' = Put(mode, <<i, t>>, "u")
                 /\ UNCHANGED <<may, seen>>
Unclaimed(i, t) == /\ Mode(i, t) = "u"
                   /\ "x" \notin Others(i, t)
                   /\ may' = may \ {<<i, t>>}
                   /\ mode' = Put(mode, <<i, t>>, "r")
                   /\ UNCHANGED seen

Step(k, i, t) == CASE k = "get" -> Get(i, t)
                   [] k = "unget" -> Unget(i, t)
                   [] k = "try" -> Try(i, t)
                   [] k = "loop" -> Loop(i, t)
                   [] k = "claim" -> Claim(i, t)
                   [] k = "fail" -> Fail(i, t)
                   [] k = "lock" -> Lock(i, t)
                   [] k = "unlock" -> Unlock(i, t)
                   [] k = "full" -> Full(i, t)
                   [] k = "freed" -> Freed(i, t)
                   [] k = "unclaim" -> Unclaim(i, t)
                   [] k = "unclaimed" -> Unclaimed(i, t)
                   [] OTHER -> FALSE
(* at the end of a run nothing is held *)
Done == mode = None /\ may = {} /\ UNCHANGED <<mode, may, seen>>
Reset == mode' = None /\ may' = {} /\ seen' = None
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ CASE ev[1] = "reset" -> Reset
             [] ev[1] = "done" -> Done
             [] ev[1] \in {"died", "hung"} -> FALSE
             [] OTHER -> Step(ev[1], ev[3], ev[2])
TSpec == Init /\ [][Next]_vars

(* what the steps together must guarantee; checked on the model of the     *)
(* lock (RWLock.tla) and here on every recorded state                      *)
Excl == \A k \in DOMAIN mode : mode[k] = "x" =>
           \A j \in DOMAIN mode : (j[1] = k[1] /\ j # k) => mode[j] \notin {"r", "c", "x"}
Accepted == LET n == TLCGet("stats").diameter - 1
            IN /\ PrintT(<<"MATCHED", n, Len(Trace)>>)
               /\ n = Len(Trace)
=============================================================================
