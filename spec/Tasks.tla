------------------------------- MODULE Tasks -------------------------------
(***************************************************************************)
(* The task system: two queues of tasks (memtable, normal).  Tasks are     *)
(* enqueued at the end or (urgent) at the head, taken from the head by     *)
(* background threads or by callers offering help, run once.               *)
(* Validation of recorded concurrent histories: the moments at which a     *)
(* task enters its queue and is taken from it are found by the checker.    *)
(*   q:     type -> sequence of task ids                                   *)
(*   enq:   thread -> <<id, type, at head, entered?>>                      *)
(*   taken: tasks taken, not started;  run: task -> thread running it      *)
(*   call:  thread -> <<kind, scale, queues seen (nearly) empty, ran>>     *)
(*   quiet: threads asking for idleness which was there since they asked   *)
(*   pool:  type -> background threads                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Types == {1, 2}
VARIABLES q, enq, taken, run, call, quiet, pool, l
vars == <<q, enq, taken, run, call, quiet, pool>>
ev == Trace[l]
Empty == [k \in {} |-> 0]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Start == /\ q = [t \in Types |-> <<>>] /\ enq = Empty /\ taken = {} /\ run = Empty
         /\ call = Empty /\ quiet = {} /\ pool = [t \in Types |-> 0]

Idle(q_, taken_, run_) == (\A t \in Types : q_[t] = <<>>) /\ taken_ = {} /\ DOMAIN run_ = {}
Askers(c_) == {t \in DOMAIN c_ : c_[t][1] \in {"q", "u"}}
(* a helper goes on to the next queue once it need not take from this one *)
Enough(t, n, scale) == n = 0 \/ (scale > 0 /\ (100 * n) \div scale < pool[t])
Seen(c, q_) == LET a == IF c[3] = 0 /\ Enough(1, Len(q_[1]), c[2]) THEN 1 ELSE c[3]
               IN IF a = 1 /\ Enough(2, Len(q_[2]), c[2]) THEN 2 ELSE a
(* what everybody waiting notices of a new state *)
Notice(q_, taken_, run_, c_) ==
   /\ quiet' = IF Idle(q_, taken_, run_) THEN Askers(c_) ELSE quiet \cap Askers(c_)
   /\ call' = [t \in DOMAIN c_ |-> IF c_[t][1] = "p" THEN [c_[t] EXCEPT ![3] = Seen(c_[t], q_)] ELSE c_[t]]

EnqCall(t, id, ty, head) == /\ t \notin DOMAIN enq
                            /\ enq' = enq @@ (t :> <<id, ty, head, FALSE>>)
                            /\ UNCHANGED <<q, taken, run, call, quiet, pool>>
Enter(t) == /\ ~enq[t][4]
            /\ enq' = [enq EXCEPT ![t][4] = TRUE]
            /\ LET ty == enq[t][2]  id == enq[t][1]
                   q_ == [q EXCEPT ![ty] = IF enq[t][3] = 1 THEN <<id>> \o @ ELSE Append(@, id)]
               IN q' = q_ /\ Notice(q_, taken, run, call)
            /\ UNCHANGED <<taken, run, pool>>
EnqRet(t, rc) == /\ rc = 0 /\ t \in DOMAIN enq /\ enq[t][4]
                 /\ enq' = Without(enq, t)
                 /\ UNCHANGED <<q, taken, run, call, quiet, pool>>
Helpers == {t \in DOMAIN call : call[t][1] \in {"p", "u"}}
Take(ty) == /\ q[ty] # <<>>
            /\ Cardinality(taken) + Cardinality(DOMAIN run) < pool[1] + pool[2] + Cardinality(Helpers)
            /\ taken' = taken \cup {Head(q[ty])}
            /\ LET q_ == [q EXCEPT ![ty] = Tail(@)]
               IN q' = q_ /\ Notice(q_, taken', run, call)
            /\ UNCHANGED <<enq, run, pool>>
RunStart(t, id, ok) ==
   /\ ok = 1 /\ id \in taken
   /\ \A x \in DOMAIN run : run[x] # t
   /\ t < 100 => t \in Helpers /\ (call[t][1] = "p" => call[t][4] = 0)
   /\ taken' = taken \ {id} /\ run' = run @@ (id :> t)
   /\ call' = IF t < 100 THEN [call EXCEPT ![t][4] = 1] ELSE call
   /\ UNCHANGED <<q, enq, quiet, pool>>
RunEnd(t, id) == /\ id \in DOMAIN run /\ run[id] = t
                 /\ run' = Without(run, id)
                 /\ Notice(q, taken, run', call)
                 /\ UNCHANGED <<q, enq, taken, pool>>
CallStart(t, kind, scale) == /\ t \notin DOMAIN call
                             /\ Notice(q, taken, run, call @@ (t :> <<kind, scale, 0, 0>>))
                             /\ UNCHANGED <<q, enq, taken, run, pool>>
Return(t) == /\ call' = Without(call, t) /\ quiet' = quiet \ {t}
             /\ UNCHANGED <<q, enq, taken, run, pool>>
(* help was given, or there was nothing to help with *)
HelpRet(t, rc) == /\ t \in DOMAIN call /\ call[t][1] = "p"
                  /\ \/ rc = 0 /\ call[t][4] = 1
                     \/ rc = 1 /\ call[t][4] = 0 /\ call[t][3] = 2
                  /\ \A x \in DOMAIN run : run[x] # t
                  /\ Return(t)
QuietRet(t, res) == /\ t \in DOMAIN call /\ call[t][1] = "q"
                    /\ res = 1 => t \in quiet
                    /\ Return(t)
UntilRet(t, rc) == /\ t \in DOMAIN call /\ call[t][1] = "u"
                   /\ rc = 0 /\ t \in quiet
                   /\ Return(t)
Init == Start /\ l = 1
Ev ==
   /\ l <= Len(Trace) /\ l' = l + 1
   /\ CASE ev[1] = "reset" -> /\ q' = [t \in Types |-> <<>>] /\ enq' = Empty /\ taken' = {} /\ run' = Empty
                              /\ call' = Empty /\ quiet' = {} /\ pool' = [t \in Types |-> 0]
        [] ev[1] = "up" -> pool' = [t \in Types |-> ev[t + 1]] /\ UNCHANGED <<q, enq, taken, run, call, quiet>>
        [] ev[1] = "ec" -> EnqCall(ev[2], ev[3], ev[4], ev[5])
        [] ev[1] = "er" -> EnqRet(ev[2], ev[3])
        [] ev[1] = "s" -> RunStart(ev[2], ev[3], ev[4])
        [] ev[1] = "e" -> RunEnd(ev[2], ev[3])
        [] ev[1] = "pc" -> CallStart(ev[2], "p", ev[3])
        [] ev[1] = "pr" -> HelpRet(ev[2], ev[3])
        [] ev[1] = "qc" -> CallStart(ev[2], "q", 0)
        [] ev[1] = "qr" -> QuietRet(ev[2], ev[3])
        [] ev[1] = "uc" -> CallStart(ev[2], "u", 0)
        [] ev[1] = "ur" -> UntilRet(ev[2], ev[3])
        [] ev[1] = "down" -> /\ Idle(q, taken, run) /\ DOMAIN enq = {} /\ DOMAIN call = {}
                             /\ UNCHANGED vars
        [] OTHER -> FALSE
Next == \/ Ev
        \/ l <= Len(Trace) /\ l' = l /\ ((\E t \in DOMAIN enq : Enter(t)) \/ \E ty \in Types : Take(ty))
TSpec == Init /\ [][Next]_<<vars, l>>
ASSUME TLCSet(1, 1)
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == /\ PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>)
            /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
