-------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* A log written by many threads: a sequence of extents, each thread fills *)
(* pages of its own, a page is complete when its thread takes the next.    *)
(* Reading back yields the entries of all pages before the first one that  *)
(* is not complete, in the order of their generations.                     *)
(*   exts: extents of the log in order;  cur: thread -> its page           *)
(*   on:   page -> entries written to it, with generations                 *)
(*   full: complete pages                                                  *)
(* Validation of recorded histories of the real shard_log.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
PerExtent == 32
VARIABLES exts, cur, on, full, now, opening, got, l
vars == <<exts, cur, on, full, now, opening, got>>
ev == Trace[l]
Empty == [k \in {} |-> 0]
Set(f, e, v) == IF e \in DOMAIN f THEN [f EXCEPT ![e] = v] ELSE f @@ (e :> v)
Start == exts = <<>> /\ cur = Empty /\ on = Empty /\ full = {} /\ now = Empty /\ opening = FALSE /\ got = <<>>
(* an extent taken by the log: its list of extents, or the next for pages *)
Extent(e) == exts' = Append(exts, e)
(* thread t takes a page: the one it filled is complete *)
Page(e, p, t) ==
   IF opening THEN UNCHANGED vars
   ELSE /\ \E j \in DOMAIN exts : exts[j] = e
        /\ <<e, p>> \notin DOMAIN on
        /\ t \in DOMAIN now
        /\ full' = IF t \in DOMAIN cur THEN full \cup {cur[t]} ELSE full
        /\ cur' = Set(cur, t, <<e, p>>)
        /\ on' = on @@ (<<e, p>> :> <<>>)
        /\ UNCHANGED <<exts, now, opening, got>>
Write(t, id, g) == /\ now' = Set(now, t, <<id, g>>)
                   /\ UNCHANGED <<exts, cur, on, full, opening, got>>
Written(t, rc) == /\ rc = 0 /\ t \in DOMAIN now /\ t \in DOMAIN cur
                  /\ on' = [on EXCEPT ![cur[t]] = Append(@, now[t])]
                  /\ UNCHANGED <<exts, cur, full, now, opening, got>>
(* pages in the order of the device *)
PageAt(n) == <<exts[n \div PerExtent + 1], n % PerExtent>>
RECURSIVE Upto(_)
Upto(n) == IF n \div PerExtent + 1 \in DOMAIN exts /\ PageAt(n) \in full THEN on[PageAt(n)] \o Upto(n + 1) ELSE <<>>
(* generations are large numbers: in two parts *)
GenLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
(* ids are numbers: generations by id, in one pass *)
RECURSIVE GenOf(_, _, _)
GenOf(w, f, j) == IF j > Len(w) THEN f ELSE GenOf(w, [f EXCEPT ![w[j][1]] = w[j][2]], j + 1)
ReadEnd == \E want \in {Upto(0)} : \E ids \in {{want[j][1] : j \in DOMAIN want}} :
              /\ Len(got) = Len(want)
              /\ Cardinality(ids) = Len(want)
              /\ {got[j] : j \in DOMAIN got} = ids
              /\ \E gen \in {GenOf(want, [x \in ids |-> <<0, 0>>], 1)} :
                    \A j \in 1 .. Len(got) - 1 : GenLeq(gen[got[j]], gen[got[j + 1]])
Init == Start /\ l = 1
Keep == UNCHANGED vars
Next ==
   /\ l <= Len(Trace) /\ l' = l + 1
   /\ CASE ev[1] \in {"reset", "log"} -> /\ exts' = <<>> /\ cur' = Empty /\ on' = Empty /\ full' = {} /\ now' = Empty
                                         /\ opening' = (ev[1] = "log") /\ got' = <<>>
        [] ev[1] = "al" -> Extent(ev[2]) /\ UNCHANGED <<cur, on, full, now, opening, got>>
        [] ev[1] = "logok" -> /\ Len(exts) = 2 /\ exts[1] = ev[2] /\ exts[2] = ev[3]
                              /\ exts' = <<exts[2]>> /\ opening' = FALSE
                              /\ UNCHANGED <<cur, on, full, now, got>>
        [] ev[1] = "pa" -> Page(ev[2], ev[3], ev[4])
        [] ev[1] = "w" -> Write(ev[2], ev[3], ev[4])
        [] ev[1] = "wr" -> Written(ev[2], ev[3])
        [] ev[1] = "it" -> got' = <<>> /\ UNCHANGED <<exts, cur, on, full, now, opening>>
        [] ev[1] = "x" -> ev[3] = 1 /\ got' = Append(got, ev[2]) /\ UNCHANGED <<exts, cur, on, full, now, opening>>
        [] ev[1] = "ie" -> ReadEnd /\ Keep
        [] ev[1] \in {"inc", "dec", "pg", "disc", "mnt", "um", "ref", "refs"} -> Keep
        [] OTHER -> FALSE
View == l
TSpec == Init /\ [][Next]_<<vars, l>>
Accepted == LET n == TLCGet("stats").diameter - 1
            IN /\ PrintT(<<"MATCHED", n, Len(Trace)>>)
               /\ n = Len(Trace)
=============================================================================
