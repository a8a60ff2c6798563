------------------------------ MODULE KVTrace ------------------------------
(* Validates recorded executions of the real library against KVStore.      *)
(* One JSON array per line, one line per API return; several executions    *)
(* may follow each other, separated by "reset".                            *)
(*                                                                         *)
(* Judged names the observations this run decides on: "write" (return      *)
(* codes of writes), "lookup", "scan" (contents seen by cursors), "move"   *)
(* (where a cursor lands and which moves it offers), "life" (results of    *)
(* create / open / close).  OnlyReopened restricts reads to instances that *)
(* were brought back by an open.                                           *)
EXTENDS KVStore, TLC, Json, IOUtils

CONSTANTS Judged, OnlyReopened

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reopened
tvars == <<phase, store, saved, cur, l, reopened>>

ev == Trace[l]
Is(n) == l <= Len(Trace) /\ ev[1] = n /\ l' = l + 1
J(kind) == kind \in Judged /\ (OnlyReopened => (reopened \/ kind \notin {"lookup", "scan", "move"}))
Keep == UNCHANGED reopened

TInit == KVInit /\ l = 1 /\ reopened = FALSE

Val(v) == IF v = 0 THEN <<>> ELSE <<v>>

(* a write the library refused has no effect; refusing a valid write is a  *)
(* violation where writes are judged                                        *)
TInsert == Is("i") /\ Keep
           /\ IF ev[4] = 0 THEN Insert(ev[2], Val(ev[3])) ELSE ~J("write") /\ Refused
TUpdate == Is("u") /\ Keep
           /\ IF ev[4] = 0 THEN Update(ev[2], Val(ev[3])) ELSE ~J("write") /\ Refused
TDelete == Is("d") /\ Keep
           /\ IF ev[3] = 0 THEN Delete(ev[2]) ELSE ~J("write") /\ Refused
TLookup == /\ Is("l") /\ Keep
           /\ J("lookup") =>
              /\ ev[3] = 0
              /\ IF ev[4] = 1 THEN ev[5] = 0 /\ store[ev[2]] = ev[6]
                 ELSE ev[5] # 0 /\ store[ev[2]] = Absent
           /\ Lookup(ev[2])
TCreate == Is("create") /\ ev[2] = 0 /\ Create /\ reopened' = FALSE
TOpen   == /\ Is("open")
           /\ IF ev[2] = 0 THEN Open /\ reopened' = TRUE ELSE OpenFails /\ Keep
TClose  == Is("close") /\ ev[2] = 0 /\ Close /\ Keep
TCrash  == Is("crash") /\ Crash /\ Keep

Obs(c) == /\ J("move") =>
             /\ (ev[4] = 1) <=> (c \in 1..NKeys)
             /\ IF HasLive \/ c = 0 THEN (ev[5] = 1) <=> CanPrev(c) ELSE TRUE
             /\ IF HasLive \/ c = NKeys + 1 THEN (ev[6] = 1) <=> CanNext(c) ELSE TRUE
             /\ ev[4] = 1 => ev[7] = c
          /\ J("scan") /\ ev[4] = 1 =>
             /\ ev[7] \in Keys
             /\ store[ev[7]] # Absent
             /\ ev[8] = store[ev[7]]
          /\ J("move") \/ J("scan") => ev[4] # 2
Moves == J("move")
(* a run that does not decide on cursors lets them go anywhere              *)
Lax == ~Moves /\ cur.on /\ \/ \E c \in {ev[7]} : ev[4] = 1 /\ cur' = [on |-> TRUE, at |-> c]
                           \/ ev[4] # 1 /\ cur' = cur
TCurInit == Is("I") /\ Keep /\ (Moves => ev[3] = 0) /\ CurInit(ev[2]) /\ Obs(cur'.at)
TCurNext == /\ Is("N") /\ Keep
            /\ IF Moves THEN CurNext /\ Obs(cur'.at)
               ELSE Lax /\ Obs(cur'.at) /\ UNCHANGED <<phase, store, saved>>
TCurPrev == /\ Is("P") /\ Keep
            /\ IF Moves THEN CurPrev /\ Obs(cur'.at)
               ELSE Lax /\ Obs(cur'.at) /\ UNCHANGED <<phase, store, saved>>
TCurEnd  == Is("E") /\ CurEnd /\ Keep
TDone    == Is("done") /\ UNCHANGED kvVars /\ Keep
TReset   == /\ Is("reset")
            /\ phase' = "none" /\ store' = Empty /\ saved' = Empty /\ cur' = NoCur
            /\ reopened' = FALSE

TNext == \/ TInsert \/ TUpdate \/ TDelete \/ TLookup \/ TCreate \/ TOpen
         \/ TClose \/ TCrash \/ TCurInit \/ TCurNext \/ TCurPrev \/ TCurEnd
         \/ TDone \/ TReset
TSpec == TInit /\ [][TNext]_tvars

CursorOnLive == Moves => CurOnLive
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"MATCHED", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
