------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* Reference-counted extents shared by threads: validation of concurrent   *)
(* calls.  Every call takes effect at one moment between its call and its  *)
(* return (a linearization), which the checker looks for.  The call event  *)
(* carries the result the call returned later.                             *)
(*   ref:  extent -> references (0 free, fresh 2)                          *)
(*   pend: thread -> <<operation, extent, result, done>> or <<>>           *)
(*   idle: thread -> extents free ever since its pending call began        *)
(*   name: root id -> slot of its super block                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Threads == 0 .. 15
VARIABLES ref, pend, idle, base, scan, name, l
vars == <<ref, pend, idle, base, scan, name>>
ev == Trace[l]
Exts == DOMAIN ref
Free == {e \in Exts : ref[e] = 0}
Quiet == \A t \in Threads : pend[t] = <<>>
NoPend == [t \in Threads |-> <<>>]
NoIdle == [t \in Threads |-> {}]
Empty == [k \in {} |-> 0]

Call(t, op, e, r) == /\ pend[t] = <<>>
                     /\ pend' = [pend EXCEPT ![t] = <<op, e, r, FALSE>>]
                     /\ idle' = IF op = "alloc" /\ r = 0 THEN [idle EXCEPT ![t] = Free] ELSE idle
                     /\ UNCHANGED <<ref, base, scan, name>>
Taking == {t \in Threads : pend[t] # <<>> /\ pend[t][1] = "alloc"}
(* a call may fail for lack of space although an extent was free all the    *)
(* time, if another call pending at its return is about to take that extent *)
Effect(t) ==
   LET op == pend[t][1]  e == pend[t][2]  r == pend[t][3]
   IN /\ ~pend[t][4]
      /\ pend' = [pend EXCEPT ![t][4] = TRUE]
      /\ CASE op = "alloc" /\ r = 1 ->
                 /\ e \in Exts /\ ref[e] = 0
                 /\ ref' = [ref EXCEPT ![e] = 2]
                 /\ idle' = [u \in Threads |-> idle[u] \ {e}]
           [] op = "alloc" /\ r = 0 -> UNCHANGED <<ref, idle>>
           [] op = "inc" -> /\ ref[e] >= 2 /\ r = ref[e] + 1
                            /\ ref' = [ref EXCEPT ![e] = r]
                            /\ UNCHANGED idle
           [] op = "dec" -> /\ ref[e] >= 1 /\ r = ref[e] - 1
                            /\ ref' = [ref EXCEPT ![e] = r]
                            /\ UNCHANGED idle
           [] op = "get" -> r = ref[e] /\ UNCHANGED <<ref, idle>>
           [] OTHER -> FALSE
      /\ UNCHANGED <<base, scan, name>>
Return(t) == /\ pend[t] # <<>> /\ pend[t][4]
             /\ (pend[t][1] = "alloc" /\ pend[t][3] = 0) =>
                   Cardinality(idle[t]) <= Cardinality(Taking \ {t})
             /\ pend' = [pend EXCEPT ![t] = <<>>]
             /\ idle' = [idle EXCEPT ![t] = {}]
             /\ UNCHANGED <<ref, base, scan, name>>

ScanStart(k, inuse, n) == /\ scan = <<>> /\ Quiet
                          /\ scan' = <<k, inuse, {}>>
                          /\ IF k = "new" THEN ref' = [e \in 0 .. n - 1 |-> 0] ELSE n = Cardinality(Exts) /\ UNCHANGED ref
                          /\ UNCHANGED <<pend, idle, base, name>>
ScanRef(e, n) == /\ scan # <<>> /\ e \in Exts
                 /\ IF scan[1] = "new" THEN n = 2 /\ ref' = [ref EXCEPT ![e] = n] ELSE ref[e] = n /\ UNCHANGED ref
                 /\ scan' = [scan EXCEPT ![3] = @ \cup {e}]
                 /\ UNCHANGED <<pend, idle, base, name>>
ScanEnd == /\ scan # <<>>
           /\ scan[3] = Exts \ Free
           /\ scan[2] = Cardinality(scan[3])
           /\ scan[1] = "new" => \E k \in 1 .. Cardinality(Exts) : scan[3] = 0 .. k - 1
           /\ scan[1] = "empty" => scan[3] = base
           /\ base' = IF scan[1] = "new" THEN scan[3] ELSE base
           /\ scan' = <<>>
           /\ UNCHANGED <<ref, pend, idle, name>>
(* super blocks of databases: pages of the first extent after its first one *)
Slots == 1 .. 31
Used == {name[i] : i \in DOMAIN name}
SuperAlloc(id, ok, e, p) == /\ id \notin DOMAIN name
                            /\ IF ok = 1 THEN e = 0 /\ p \in Slots \ Used /\ name' = name @@ (id :> p)
                               ELSE Cardinality(Used) >= 30 /\ UNCHANGED name
                            /\ UNCHANGED <<ref, pend, idle, base, scan>>
SuperGet(id, ok, e, p) == /\ ok = (IF id \in DOMAIN name THEN 1 ELSE 0)
                          /\ ok = 1 => e = 0 /\ p = name[id]
                          /\ UNCHANGED vars
SuperRemove(id) == /\ id \in DOMAIN name
                   /\ name' = [i \in DOMAIN name \ {id} |-> name[i]]
                   /\ UNCHANGED <<ref, pend, idle, base, scan>>
Init == ref = Empty /\ pend = NoPend /\ idle = NoIdle /\ base = {} /\ scan = <<>> /\ name = Empty /\ l = 1
Hidden == /\ l <= Len(Trace) /\ ev[1] = "r"
          /\ \E t \in Threads : pend[t] # <<>> /\ Effect(t)
          /\ UNCHANGED l
Event ==
   /\ l <= Len(Trace) /\ l' = l + 1
   /\ CASE ev[1] = "reset" -> ref' = Empty /\ pend' = NoPend /\ idle' = NoIdle /\ base' = {} /\ scan' = <<>> /\ name' = Empty
        [] ev[1] = "c" -> Call(ev[2], ev[3], ev[4], ev[5])
        [] ev[1] = "r" -> Return(ev[2])
        [] ev[1] \in {"new", "all", "empty"} -> ScanStart(ev[1], ev[2], ev[3])
        [] ev[1] = "ref" -> ScanRef(ev[2], ev[3])
        [] ev[1] = "refs" -> ScanEnd
        [] ev[1] = "sa" -> SuperAlloc(ev[2], ev[3], ev[4], ev[5])
        [] ev[1] = "sg" -> SuperGet(ev[2], ev[3], ev[4], ev[5])
        [] ev[1] = "sr" -> SuperRemove(ev[2])
        [] OTHER -> FALSE
TSpec == Init /\ [][Hidden \/ Event]_<<vars, l>>
(* hidden steps make the search longer than the trace: the furthest event counts *)
ASSUME TLCSet(1, 1)
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == /\ PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>)
            /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
