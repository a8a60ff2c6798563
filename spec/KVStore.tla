------------------------------ MODULE KVStore ------------------------------
(***************************************************************************)
(* The contract of a SplinterDB instance as seen by one caller: an ordered *)
(* map from keys to values, updated by insert / update / delete, read by   *)
(* lookup and by a bidirectional cursor, made durable by close and brought *)
(* back by open.                                                           *)
(*                                                                         *)
(* Keys are the ranks 1..NKeys of the keys in the order the application's  *)
(* comparison function defines.  A value is the sequence of the ids of the *)
(* writes that produced it: an insert produces a one-element sequence (or  *)
(* the empty sequence, for a zero-length value), and an update appends its *)
(* id (the application's merge function concatenates).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT NKeys

VARIABLES
  phase,    \* "none": no database, "open", "closed", "lost": not closed cleanly
  store,    \* contents of the open database
  saved,    \* contents at the last clean close
  cur       \* cursor: [on |-> FALSE, at |-> 0] or [on |-> TRUE, at |-> rank];
            \* at = 0 before the first key, NKeys + 1 after the last key

kvVars == <<phase, store, saved, cur>>

Keys   == 1..NKeys
Absent == <<0>>                       \* write ids are >= 1
Empty  == [k \in Keys |-> Absent]
NoCur  == [on |-> FALSE, at |-> 0]

Live(k)     == store[k] # Absent
HasLive     == \E k \in Keys : Live(k)
(* smallest live key >= k, NKeys+1 if none; largest live key <= k, else 0  *)
Up(k)   == IF \E j \in k..NKeys : Live(j)
           THEN CHOOSE j \in k..NKeys : Live(j) /\ \A i \in k..(j-1) : ~Live(i)
           ELSE NKeys + 1
Down(k) == IF \E j \in 1..k : Live(j)
           THEN k + 1 - (CHOOSE d \in 1..k : Live(k+1-d)
                                       /\ \A i \in 1..(d-1) : ~Live(k+1-i))
           ELSE 0

KVInit == /\ phase = "none" /\ store = Empty /\ saved = Empty /\ cur = NoCur

Ready == phase = "open" /\ ~cur.on

(* val: <<>> for a zero-length value, <<id>> otherwise *)
Insert(k, val) == /\ Ready
                  /\ store' = [store EXCEPT ![k] = val]
                  /\ UNCHANGED <<phase, saved, cur>>

Update(k, d) == /\ Ready
                /\ store' = [store EXCEPT ![k] =
                               IF @ = Absent THEN d ELSE @ \o d]
                /\ UNCHANGED <<phase, saved, cur>>

Delete(k) == /\ Ready
             /\ store' = [store EXCEPT ![k] = Absent]
             /\ UNCHANGED <<phase, saved, cur>>

(* A write the library refuses leaves the contents alone.                  *)
Refused == /\ Ready /\ UNCHANGED kvVars

LookupResult(k) == store[k]
Lookup(k) == /\ phase = "open" /\ UNCHANGED kvVars

Create == /\ phase # "open" /\ phase' = "open" /\ store' = Empty
          /\ saved' = Empty /\ cur' = NoCur
Close  == /\ Ready /\ phase' = "closed" /\ saved' = store
          /\ UNCHANGED <<store, cur>>
Open   == /\ phase = "closed" /\ phase' = "open" /\ store' = saved
          /\ UNCHANGED <<saved, cur>>
(* process death while open: nothing may be opened again                   *)
Crash  == /\ phase = "open" /\ phase' = "lost" /\ store' = Empty
          /\ cur' = NoCur /\ UNCHANGED saved
OpenFails == /\ phase \in {"lost", "none"} /\ UNCHANGED kvVars

-----------------------------------------------------------------------------
(* cursor *)
CurValid   == cur.at \in 1..NKeys
CanNext(c) == c \in 1..NKeys \/ (c = 0 /\ HasLive)
CanPrev(c) == c \in 1..NKeys \/ (c = NKeys + 1 /\ HasLive)

(* start = 0: from before the minimum key *)
CurInit(start) == /\ Ready
                  /\ cur' = [on |-> TRUE, at |-> Up(IF start = 0 THEN 1 ELSE start)]
                  /\ UNCHANGED <<phase, store, saved>>
(* Over an empty map next/prev may still be offered: they only lead from  *)
(* one end to the other.                                                   *)
CurNext == /\ cur.on /\ (CanNext(cur.at) \/ (~HasLive /\ cur.at = 0))
           /\ cur' = [cur EXCEPT !.at = Up(@ + 1)]
           /\ UNCHANGED <<phase, store, saved>>
CurPrev == /\ cur.on /\ (CanPrev(cur.at) \/ (~HasLive /\ cur.at = NKeys + 1))
           /\ cur' = [cur EXCEPT !.at = Down(@ - 1)]
           /\ UNCHANGED <<phase, store, saved>>
CurEnd  == /\ cur.on /\ cur' = NoCur /\ UNCHANGED <<phase, store, saved>>

-----------------------------------------------------------------------------
TypeOK == /\ phase \in {"none", "open", "closed", "lost"}
          /\ DOMAIN store = Keys /\ DOMAIN saved = Keys
          /\ cur.at \in 0..(NKeys+1)
(* a valid cursor rests on a live key *)
CurOnLive == cur.on /\ CurValid => Live(cur.at)
=============================================================================
