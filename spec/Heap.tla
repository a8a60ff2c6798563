-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Memory from a shared segment of `size` units (of 64 bytes).             *)
(*   live: piece -> <<first unit, units>>;  going: pieces being freed      *)
(*   pend: thread -> units asked for;   top: end of the highest piece ever *)
(*   kept: large pieces freed, <<first unit, units>> (one thread only);    *)
(*   frag: first unit of a large piece -> the most it was ever used for    *)
(* Validation of recorded concurrent histories.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Large == (90 * 1024) \div 64
VARIABLES size, thr, live, going, pend, top, kept, frag, l
vars == <<size, thr, live, going, pend, top, kept, frag>>
ev == Trace[l]
Empty == [k \in {} |-> 0]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Apart(a, b) == a[1] + a[2] <= b[1] \/ b[1] + b[2] <= a[1]
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Sum(f, D \ {x})
Ask(t, n) == t \notin DOMAIN pend /\ pend' = pend @@ (t :> n) /\ UNCHANGED <<size, thr, live, going, top, kept, frag>>
(* a piece: aligned, inside, apart from every other one *)
Given(t, id, lo) ==
   /\ t \in DOMAIN pend /\ id \notin DOMAIN live
   /\ LET n == pend[t]  p == <<lo, n>>
          fits == {k \in kept : k[2] >= n}
      IN /\ lo > 0 /\ lo + n <= size
         /\ \A x \in DOMAIN live : Apart(live[x], p)
         (* large pieces freed are used again *)
         /\ (thr = 1 /\ n >= Large /\ fits # {}) => \E k \in fits : k[1] = lo
         /\ live' = live @@ (id :> p)
         /\ top' = IF lo + n > top THEN lo + n ELSE top
         /\ kept' = {k \in kept : k[1] # lo}
         /\ frag' = IF n < Large THEN frag
                    ELSE [x \in DOMAIN frag \cup {lo} |-> IF x # lo THEN frag[x] ELSE IF x \in DOMAIN frag /\ frag[x] > n THEN frag[x] ELSE n]
   /\ pend' = Without(pend, t)
   /\ UNCHANGED <<size, thr, going>>
(* only if there may be no room above the highest piece *)
Refused(t) == /\ t \in DOMAIN pend
              /\ top + Sum(pend, DOMAIN pend) > size
              /\ (thr = 1 /\ pend[t] >= Large) => \A k \in kept : k[2] < pend[t]
              /\ pend' = Without(pend, t)
              /\ UNCHANGED <<size, thr, live, going, top, kept, frag>>
Freeing(t, id, ok) == /\ ok = 1 /\ id \in DOMAIN live
                      /\ live' = Without(live, id) /\ going' = going @@ (id :> live[id])
                      /\ UNCHANGED <<size, thr, pend, top, kept, frag>>
(* how many large ones are remembered is limited *)
Freed(id) == /\ id \in DOMAIN going /\ going' = Without(going, id)
             /\ kept' = IF thr = 1 /\ going[id][1] \in DOMAIN frag /\ Cardinality(kept) < 20 
                        THEN kept \cup {<<going[id][1], frag[going[id][1]]>>} ELSE kept
             /\ UNCHANGED <<size, thr, live, pend, top, frag>>
NotFreed(id) == /\ id \in DOMAIN going /\ going' = Without(going, id) /\ live' = live @@ (id :> going[id])
                /\ UNCHANGED <<size, thr, pend, top, kept, frag>>
Init == size = 0 /\ thr = 0 /\ live = Empty /\ going = Empty /\ pend = Empty /\ top = 0 /\ kept = {} /\ frag = Empty /\ l = 1
Next ==
   /\ l <= Len(Trace) /\ l' = l + 1
   /\ CASE ev[1] \in {"reset"} -> UNCHANGED vars
        [] ev[1] = "up" -> /\ size' = ev[2] /\ thr' = ev[3] /\ live' = Empty /\ going' = Empty /\ pend' = Empty
                           /\ top' = 16384 \div 64 /\ kept' = {} /\ frag' = Empty
        [] ev[1] = "ac" -> Ask(ev[2], ev[3])
        [] ev[1] = "a" -> Given(ev[2], ev[3], ev[4])
        [] ev[1] = "no" -> Refused(ev[2])
        [] ev[1] = "f" -> Freeing(ev[2], ev[3], ev[4])
        [] ev[1] = "fr" -> Freed(ev[3])
        [] ev[1] = "un" -> NotFreed(ev[3])
        [] ev[1] = "ck" -> ev[2] = 1 /\ UNCHANGED vars
        [] OTHER -> FALSE
View == l
TSpec == Init /\ [][Next]_<<vars, l>>
Accepted == LET n == TLCGet("stats").diameter - 1
            IN /\ PrintT(<<"MATCHED", n, Len(Trace)>>)
               /\ n = Len(Trace)
=============================================================================
