----------------------------- MODULE TaskQueue -----------------------------
(***************************************************************************)
(* Design model of one task group: a queue under a lock, workers sleeping  *)
(* on a condition variable, enqueuers signalling it, helpers taking tasks, *)
(* the check for idleness (waiting = executing = 0 under the lock), and    *)
(* the shutdown.  Exhaustive for small numbers.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Workers, Enqueuers, Helpers, PerEnq
Threads == Workers \cup Enqueuers \cup Helpers
VARIABLES q, waiting, executing, lock, pc, mine, sleeping, left, ran, stop, idle
vars == <<q, waiting, executing, lock, pc, mine, sleeping, left, ran, stop, idle>>
None == "none"
Tasks == Enqueuers \X (1 .. PerEnq)
Init == /\ q = <<>> /\ waiting = 0 /\ executing = 0 /\ lock = None
        /\ pc = [t \in Threads |-> IF t \in Workers THEN "lock" ELSE "start"]
        /\ mine = [t \in Threads |-> <<>>] /\ sleeping = {}
        /\ left = [t \in Enqueuers |-> PerEnq] /\ ran = [x \in Tasks |-> 0]
        /\ stop = FALSE /\ idle = FALSE
Goto(t, s) == pc' = [pc EXCEPT ![t] = s]
Acquire(t, at, to) == pc[t] = at /\ lock = None /\ lock' = t /\ Goto(t, to)
Pop(t) == /\ mine' = [mine EXCEPT ![t] = <<Head(q)>>] /\ q' = Tail(q) /\ waiting' = waiting - 1
          /\ executing' = executing + 1 /\ lock' = None
(* a worker *)
WLock(t) == Acquire(t, "lock", "check")
            /\ UNCHANGED <<q, waiting, executing, mine, sleeping, left, ran, stop, idle>>
WCheck(t) == /\ pc[t] = "check"
             /\ IF stop THEN lock' = None /\ Goto(t, "done") /\ UNCHANGED <<q, waiting, executing, mine, sleeping>>
                ELSE IF q # <<>> THEN Pop(t) /\ Goto(t, "run") /\ UNCHANGED sleeping
                ELSE /\ sleeping' = sleeping \cup {t} /\ lock' = None /\ Goto(t, "asleep")
                     /\ UNCHANGED <<q, waiting, executing, mine>>
             /\ UNCHANGED <<left, ran, stop, idle>>
WWake(t) == /\ pc[t] = "asleep" /\ t \notin sleeping /\ lock = None /\ lock' = t /\ Goto(t, "check")
            /\ UNCHANGED <<q, waiting, executing, mine, sleeping, left, ran, stop, idle>>
Run(t) == /\ pc[t] = "run" /\ ran' = [ran EXCEPT ![mine[t][1]] = @ + 1]
          /\ Goto(t, "ran") /\ UNCHANGED <<q, waiting, executing, lock, mine, sleeping, left, stop, idle>>
WDone(t) == /\ t \in Workers /\ pc[t] = "ran" /\ lock = None /\ lock' = t /\ executing' = executing - 1
            /\ mine' = [mine EXCEPT ![t] = <<>>] /\ Goto(t, "check")
            /\ UNCHANGED <<q, waiting, sleeping, left, ran, stop, idle>>
(* an enqueuer *)
ELock(t) == left[t] > 0 /\ Acquire(t, "start", "put")
            /\ UNCHANGED <<q, waiting, executing, mine, sleeping, left, ran, stop, idle>>
EPut(t) == /\ pc[t] = "put"
           /\ \E at \in {"head", "tail"} :
                 q' = IF at = "head" THEN <<<<t, left[t]>>>> \o q ELSE Append(q, <<t, left[t]>>)
           /\ waiting' = waiting + 1 /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ IF sleeping = {} THEN UNCHANGED sleeping ELSE \E w \in sleeping : sleeping' = sleeping \ {w}
           /\ lock' = None /\ Goto(t, "start")
           /\ UNCHANGED <<executing, mine, ran, stop, idle>>
(* a helper works until it finds the group idle *)
HLock(t) == Acquire(t, "start", "help")
            /\ UNCHANGED <<q, waiting, executing, mine, sleeping, left, ran, stop, idle>>
HTake(t) == /\ pc[t] = "help"
            /\ IF q # <<>> THEN Pop(t) /\ Goto(t, "run") ELSE lock' = None /\ Goto(t, "ask") /\ UNCHANGED <<q, waiting, executing, mine>>
            /\ UNCHANGED <<sleeping, left, ran, stop, idle>>
HDone(t) == /\ t \in Helpers /\ pc[t] = "ran" /\ executing' = executing - 1
            /\ mine' = [mine EXCEPT ![t] = <<>>] /\ Goto(t, "start")
            /\ UNCHANGED <<q, waiting, lock, sleeping, left, ran, stop, idle>>
HAsk(t) == /\ pc[t] = "ask" /\ lock = None
           /\ IF waiting = 0 /\ executing = 0 THEN idle' = TRUE ELSE UNCHANGED idle
           /\ Goto(t, "asked") /\ UNCHANGED <<q, waiting, executing, lock, mine, sleeping, left, ran, stop>>
HAgain(t) == /\ pc[t] = "asked" /\ idle' = FALSE
             /\ Goto(t, IF (\A e \in Enqueuers : left[e] = 0) /\ q = <<>> /\ executing = 0 THEN "end" ELSE "start")
             /\ UNCHANGED <<q, waiting, executing, lock, mine, sleeping, left, ran, stop>>
(* nobody is left: shut down *)
Stop == /\ ~stop /\ lock = None /\ \A h \in Helpers : pc[h] = "end"
        /\ stop' = TRUE /\ sleeping' = {}
        /\ UNCHANGED <<q, waiting, executing, lock, pc, mine, left, ran, idle>>
Next == \/ \E t \in Workers : WLock(t) \/ WCheck(t) \/ WWake(t) \/ WDone(t)
        \/ \E t \in Enqueuers : ELock(t) \/ EPut(t)
        \/ \E t \in Helpers : HLock(t) \/ HTake(t) \/ HDone(t) \/ HAsk(t) \/ HAgain(t)
        \/ \E t \in Threads : Run(t)
        \/ Stop
        \/ (\A t \in Workers : pc[t] = "done") /\ UNCHANGED vars
Fair == /\ \A t \in Workers : SF_vars(WLock(t)) /\ WF_vars(WCheck(t)) /\ SF_vars(WWake(t)) /\ SF_vars(WDone(t))
        /\ \A t \in Threads : WF_vars(Run(t))
        /\ \A t \in Enqueuers : SF_vars(ELock(t)) /\ WF_vars(EPut(t))
        /\ \A t \in Helpers : SF_vars(HLock(t)) /\ WF_vars(HTake(t)) /\ WF_vars(HDone(t)) /\ SF_vars(HAsk(t)) /\ WF_vars(HAgain(t))
        /\ SF_vars(Stop)
Spec == Init /\ [][Next]_vars /\ Fair
AtMostOnce == \A x \in Tasks : ran[x] <= 1
Counted == waiting = Len(q) /\ executing >= 0
(* found idle: at that moment every entered task had been run to its end *)
Sound == [][idle' /\ ~idle => \A x \in Tasks : x[2] > left[x[1]] => ran[x] = 1]_vars
AllRun == <>(\A x \in Tasks : ran[x] = 1)
AllEnd == <>(\A t \in Workers : pc[t] = "done")
=============================================================================
