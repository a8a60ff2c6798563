------------------------------- MODULE Space -------------------------------
(***************************************************************************)
(* The space of the device: extents with reference counts, pages handed    *)
(* out inside them; validation of everything asked of the real allocator   *)
(* and of page allocations, in the order in which it happened.             *)
(*   ref:  extent -> references, for the extents in use                    *)
(*   used: extent -> pages given out in this life of the extent            *)
(*   base: the extents of the fixed metadata                               *)
(* A fresh extent has 2 references (0 free, 1 being given back): the value *)
(* 1 lies between the last reference and the moment the extent is free.    *)
(* Judged: "use"  - what is in use is not given out again                  *)
(*         "back" - what dies is given back, all counts agree              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Judged
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ref, used, base, cap, scan, l
vars == <<ref, used, base, cap, scan>>
ev == Trace[l]
Empty == [k \in {} |-> 0]
Free(e) == e \notin DOMAIN ref
Without(f, e) == [k \in DOMAIN f \ {e} |-> f[k]]
Set(f, e, v) == IF e \in DOMAIN f THEN [f EXCEPT ![e] = v] ELSE f @@ (e :> v)
J(part, cond) == part \in Judged => cond

Alloc(e, ok, misaligned) ==
   IF ok = 1
   THEN /\ e < cap /\ misaligned = 0
        /\ Free(e)
        /\ ref' = Set(ref, e, 2)
        /\ used' = Set(used, e, {})
        /\ UNCHANGED <<base, cap, scan>>
   ELSE /\ Cardinality(DOMAIN ref) = cap
        /\ UNCHANGED vars
Inc(e, n) == /\ ~Free(e) /\ n = ref[e] + 1 /\ n < 256
             /\ ref' = [ref EXCEPT ![e] = n]
             /\ UNCHANGED <<used, base, cap, scan>>
Dec(e, n) == /\ ~Free(e) /\ n = ref[e] - 1
             /\ ref' = IF n = 0 THEN Without(ref, e) ELSE [ref EXCEPT ![e] = n]
             /\ used' = IF n = 0 THEN Without(used, e) ELSE used
             /\ UNCHANGED <<base, cap, scan>>
(* a page is given out once, in an extent in use *)
PageAlloc(e, p) == /\ J("use", ~Free(e))
                   /\ J("use", Free(e) \/ ref[e] >= 2)
                   /\ J("use", Free(e) \/ p \notin used[e])
                   /\ used' = IF Free(e) THEN used ELSE [used EXCEPT ![e] = @ \cup {p}]
                   /\ UNCHANGED <<ref, base, cap, scan>>
(* nobody looks into an extent that is not in use *)
Access(e) == /\ J("use", ~Free(e) /\ ref[e] >= 2)
             /\ UNCHANGED vars
(* the contents of an extent are thrown away only after its last reference *)
Discard(e) == /\ J("use", ~Free(e) /\ ref[e] = 1)
              /\ UNCHANGED vars
(* a list of all references follows: kind, and which extents were seen *)
ScanStart(kind, n, inuse) == /\ scan = <<>>
                             /\ scan' = <<kind, {}, inuse>>
                             /\ IF kind = "new" THEN ref' = Empty /\ used' = Empty /\ cap' = n
                                ELSE n = cap /\ UNCHANGED <<ref, used, cap>>
                             /\ UNCHANGED base
ScanRef(e, n) == /\ scan # <<>>
                 /\ e \notin scan[2]
                 /\ scan' = [scan EXCEPT ![2] = @ \cup {e}]
                 /\ IF scan[1] = "new" THEN n = 2 /\ ref' = Set(ref, e, n) /\ used' = Set(used, e, {})
                    ELSE ~Free(e) /\ ref[e] = n /\ UNCHANGED <<ref, used>>
                 /\ UNCHANGED <<base, cap>>
ScanEnd == /\ scan # <<>>
           /\ scan[2] = DOMAIN ref
           /\ J("back", scan[3] = Cardinality(scan[2]))
           /\ J("back", scan[1] = "empty" => scan[2] = base)
           /\ base' = IF scan[1] = "new" THEN scan[2] ELSE base
           (* the metadata stands at the start of the device *)
           /\ scan[1] = "new" => \E n \in 1 .. cap : scan[2] = 0 .. n - 1
           /\ scan' = <<>>
           /\ UNCHANGED <<ref, used, cap>>
Start == ref = Empty /\ used = Empty /\ base = {} /\ cap = 0 /\ scan = <<>>
Init == Start /\ l = 1
Next ==
   /\ l <= Len(Trace) /\ l' = l + 1
   /\ CASE ev[1] = "reset" -> ref' = Empty /\ used' = Empty /\ base' = {} /\ cap' = 0 /\ scan' = <<>>
        [] ev[1] = "al" -> Alloc(ev[2], ev[4], ev[5])
        [] ev[1] = "inc" -> Inc(ev[2], ev[3])
        [] ev[1] = "dec" -> Dec(ev[2], ev[3])
        [] ev[1] = "pa" -> PageAlloc(ev[2], ev[3])
        [] ev[1] = "pg" -> Access(ev[2])
        [] ev[1] = "disc" -> Discard(ev[2])
        [] ev[1] = "mnt" -> ScanStart(IF ev[2] = 1 THEN "again" ELSE "new", ev[3], ev[4])
        [] ev[1] = "um" -> ScanStart(IF ev[2] = 1 THEN "empty" ELSE "all", ev[3], ev[4])
        [] ev[1] = "ref" -> ScanRef(ev[2], ev[3])
        [] ev[1] = "refs" -> ScanEnd
        [] OTHER -> FALSE
TSpec == Init /\ [][Next]_<<vars, l>>
View == l
Accepted == LET n == TLCGet("stats").diameter - 1
            IN /\ PrintT(<<"MATCHED", n, Len(Trace)>>)
               /\ n = Len(Trace)
=============================================================================
