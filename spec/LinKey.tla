------------------------------- MODULE LinKey -------------------------------
(***************************************************************************)
(* Linearizability of the operations on one key.  The map is a product of  *)
(* independent per-key objects, so a history is linearizable iff its       *)
(* projection to every key is.                                             *)
(*                                                                         *)
(* The trace holds, per key, the calls and returns in the order of the     *)
(* global stamps: ["key", k] starts a key (absent at first),               *)
(*   ["c", n, kind, id, result]  operation n is called; kind "i", "u", "d" *)
(*       writes id, kind "l" reads `result` (<<0>> = absent)               *)
(*   ["r", n]                    operation n returns                       *)
(* Taking effect is an internal step between the two.  A scan is, for each *)
(* key it covers, a read from the creation of the cursor to the moment it  *)
(* showed or passed that key.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES val, pend, l
vars == <<val, pend, l>>
Absent == <<0>>
ev == Trace[l]

Apply(v, op) == CASE op[2] = "i" -> <<op[3]>>
                  [] op[2] = "u" -> IF v = Absent THEN <<op[3]>> ELSE Append(v, op[3])
                  [] op[2] = "d" -> Absent
                  [] OTHER -> v
(* a read takes effect as soon as the value it returned is current: that   *)
(* loses no linearization, as it changes nothing                           *)
Reads(v, P) == {op \in P : ~(op[2] = "l" /\ op[4] = v)}

Init == val = Absent /\ pend = {} /\ l = 1
Call == /\ l <= Len(Trace) /\ ev[1] = "c" /\ l' = l + 1
        /\ pend' = Reads(val, pend \cup {<<ev[2], ev[3], ev[4], ev[5]>>})
        /\ UNCHANGED val
Return == /\ l <= Len(Trace) /\ ev[1] = "r" /\ l' = l + 1
          /\ \A op \in pend : op[1] # ev[2]
          /\ UNCHANGED <<val, pend>>
(* a write takes effect; only needed when the next return waits for it     *)
Effect == /\ l <= Len(Trace) /\ ev[1] = "r"
          /\ \E op \in pend : op[1] = ev[2]
          /\ \E op \in pend : /\ op[2] # "l"
                              /\ val' = Apply(val, op)
                              /\ pend' = Reads(val', pend \ {op})
          /\ UNCHANGED l
NewKey == /\ l <= Len(Trace) /\ ev[1] = "key" /\ l' = l + 1
          /\ val' = Absent /\ pend' = {}
Next == Call \/ Return \/ Effect \/ NewKey
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 1)
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == /\ PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>)
            /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
