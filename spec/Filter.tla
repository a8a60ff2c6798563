------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* Filters.  A filter covers runs, each known by a value; run: value ->    *)
(* the keys added with it.  A filter is made from an older one by adding   *)
(* the keys of one more run, or more keys of the newest; the older one     *)
(* stays as it was.  What a filter answers about a key are runs it covers, *)
(* and every run the key was added with is among them.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES fl,     \* filter -> [value -> keys]
          busy,   \* the one being built, or -1
          l
vars == <<fl, busy>>
ev == Trace[l]
Nothing == [x \in {} |-> {}]
Rng(s) == {s[i] : i \in DOMAIN s}
Runs(p) == IF p = -1 THEN Nothing ELSE fl[p]
Add(f, p, v, ks) ==
   /\ busy = -1 /\ f \notin DOMAIN fl /\ (p = -1 \/ p \in DOMAIN fl)
   /\ \A w \in DOMAIN Runs(p) : w <= v
   /\ \E new \in {Rng(ks)} :
        fl' = fl @@ (f :> [w \in DOMAIN Runs(p) \cup {v} |->
                             IF w = v THEN new \cup (IF v \in DOMAIN Runs(p) THEN Runs(p)[v] ELSE {}) ELSE Runs(p)[w]])
   /\ busy' = f
Added(f) == busy = f /\ busy' = -1 /\ UNCHANGED fl
(* groups: sequence of <<values answered, keys this was the answer for>> *)
Look(f, groups) ==
   /\ busy = -1 /\ f \in DOMAIN fl
   /\ \A i \in DOMAIN groups :
         \E ans \in {Rng(groups[i][1])} :
            /\ ans \subseteq DOMAIN fl[f]
            /\ \A v \in DOMAIN fl[f] \ ans : \A j \in DOMAIN groups[i][2] : groups[i][2][j] \notin fl[f][v]
   /\ UNCHANGED vars
Zap(f) == busy = -1 /\ f \in DOMAIN fl /\ fl' = [x \in DOMAIN fl \ {f} |-> fl[x]] /\ UNCHANGED busy
Init == fl = [x \in {} |-> Nothing] /\ busy = -1 /\ l = 1
Next ==
   /\ l <= Len(Trace) /\ l' = l + 1
   /\ CASE ev[1] = "reset" -> fl' = [x \in {} |-> Nothing] /\ busy' = -1
        [] ev[1] = "add" -> Add(ev[2], ev[3], ev[4], ev[5])
        [] ev[1] = "added" -> Added(ev[2])
        [] ev[1] = "look" -> Look(ev[2], ev[4])
        [] ev[1] = "zap" -> Zap(ev[2])
        [] ev[1] = "done" -> busy = -1 /\ UNCHANGED vars
        [] OTHER -> FALSE
TSpec == Init /\ [][Next]_<<vars, l>>
View == l
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
