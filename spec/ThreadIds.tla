----------------------------- MODULE ThreadIds -----------------------------
(***************************************************************************)
(* Identities of threads: at most Max are held at a time; every holder has *)
(* one of its own.  Validation of recorded concurrent histories.           *)
(*   held: holder -> identity;  going: holders giving theirs back          *)
(*   pend: registrations under way -> TRUE if all identities may have been *)
(*         taken at some moment since                                      *)
(*   top:  callers asking for the highest identity -> those held since     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Max
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES held, going, pend, top, l
vars == <<held, going, pend, top>>
ev == Trace[l]
Empty == [k \in {} |-> 0]
Without(f, K) == [x \in DOMAIN f \ K |-> f[x]]
(* identities that may be in use, counting the other registrations *)
Used(h_, p_) == Cardinality(DOMAIN h_) + Cardinality(DOMAIN p_) - 1
Notice(h_, p_) == pend' = [x \in DOMAIN p_ |-> p_[x] \/ Used(h_, p_) >= Max]
Background == ev[2] + ev[3]
RegCall(h) == h \notin DOMAIN pend /\ h \notin DOMAIN held
              /\ Notice(held, pend @@ (h :> FALSE)) /\ UNCHANGED <<held, going, top>>
RegOk(h, id, z) == /\ h \in DOMAIN pend /\ z = 1 /\ id \in 0 .. Max - 1
                   /\ \A x \in DOMAIN held : held[x] = id => x \in going
                   /\ LET old == {x \in DOMAIN held : held[x] = id}
                          h_ == Without(held, old) @@ (h :> id)
                      IN held' = h_ /\ going' = going \ old /\ Notice(h_, Without(pend, {h}))
                   /\ UNCHANGED top
RegFail(h) == /\ h \in DOMAIN pend /\ pend[h]
              /\ Notice(held, Without(pend, {h})) /\ UNCHANGED <<held, going, top>>
DeregCall(h) == /\ h \in DOMAIN held /\ h \notin going
                /\ going' = going \cup {h} /\ UNCHANGED <<held, pend, top>>
DeregRet(h) == /\ h \notin DOMAIN held \/ h \in going
               /\ held' = Without(held, {h}) /\ going' = going \ {h}
               /\ Notice(held', pend) /\ UNCHANGED top
TopCall(h) == /\ top' = [x \in DOMAIN top \cup {h} |-> IF x = h THEN {held[y] : y \in DOMAIN held} ELSE top[x]]
              /\ UNCHANGED <<held, going, pend>>
TopRet(h, n) == /\ n <= Max /\ \A id \in top[h] : id < n
                /\ top' = Without(top, {h}) /\ UNCHANGED <<held, going, pend>>
Init == held = Empty /\ going = {} /\ pend = Empty /\ top = Empty /\ l = 1
Next ==
   /\ l <= Len(Trace) /\ l' = l + 1
   /\ CASE ev[1] = "reset" -> held' = Empty /\ going' = {} /\ pend' = Empty /\ top' = Empty
        [] ev[1] = "up" -> held' = Empty /\ UNCHANGED <<going, pend, top>>
        [] ev[1] = "rc" -> RegCall(ev[2])
        [] ev[1] = "rr" -> IF ev[3] = 1 THEN RegOk(ev[2], ev[4], ev[5]) ELSE RegFail(ev[2])
        [] ev[1] = "ck" -> ev[3] = 1 /\ UNCHANGED vars
        [] ev[1] = "mc" -> TopCall(ev[2])
        [] ev[1] = "mx" -> TopRet(ev[2], ev[3])
        [] ev[1] = "dc" -> DeregCall(ev[2])
        [] ev[1] = "dr" -> DeregRet(ev[2])
        [] ev[1] = "down" -> (\A x \in DOMAIN held : x = 0) /\ UNCHANGED vars
        [] OTHER -> FALSE
View == l
TSpec == Init /\ [][Next]_<<vars, l>>
Accepted == LET n == TLCGet("stats").diameter - 1
            IN /\ PrintT(<<"MATCHED", n, Len(Trace)>>)
               /\ n = Len(Trace)
=============================================================================
