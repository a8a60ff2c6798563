----------------------------- MODULE PageCache -----------------------------
(***************************************************************************)
(* A page cache seen from outside: pages with one current version, held    *)
(* shared, claimed or exclusively; validation of recorded uses of the real *)
(* one (clockcache) against it.                                            *)
(*   ver:  page -> its latest version; 0 while not given out                *)
(*   mode: <<page, thread>> -> "r" shared, "c" claim, "x" exclusive        *)
(* Acquisitions are recorded after they return, releases before the call,  *)
(* reads and writes inside the holds.  Eviction, writeback, loading and    *)
(* prefetching have no events: they must not be visible.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PerExtent == 32
Pages == 0 .. 2047
VARIABLES ver, mode, l
vars == <<ver, mode, l>>
ev == Trace[l]

None == [k \in {} |-> 0]
Mode(p, t) == IF <<p, t>> \in DOMAIN mode THEN mode[<<p, t>>] ELSE "n"
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Del(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
Others(p, t) == {mode[k] : k \in {k \in DOMAIN mode : k[1] = p /\ k[2] # t}}

Get(t, p) == /\ ver[p] # 0
             /\ Mode(p, t) = "n"
             /\ "x" \notin Others(p, t)
             /\ mode' = Put(mode, <<p, t>>, "r")
             /\ UNCHANGED ver
Unget(t, p) == /\ Mode(p, t) = "r"
               /\ mode' = Del(mode, <<p, t>>)
               /\ UNCHANGED ver
Claim(t, p) == /\ Mode(p, t) = "r"
               /\ Others(p, t) \cap {"c", "x"} = {}
               /\ mode' = Put(mode, <<p, t>>, "c")
               /\ UNCHANGED ver
Unclaim(t, p) == /\ Mode(p, t) = "c"
                 /\ mode' = Put(mode, <<p, t>>, "r")
                 /\ UNCHANGED ver
Lock(t, p) == /\ Mode(p, t) = "c"
              /\ Others(p, t) = {}
              /\ mode' = Put(mode, <<p, t>>, "x")
              /\ UNCHANGED ver
Unlock(t, p) == /\ Mode(p, t) = "x"
                /\ mode' = Put(mode, <<p, t>>, "c")
                /\ UNCHANGED ver
(* a new page comes exclusively locked *)
New(t, p, v) == /\ ver[p] = 0
                /\ Others(p, t) = {} /\ Mode(p, t) = "n"
                /\ ver' = [ver EXCEPT ![p] = v]
                /\ mode' = Put(mode, <<p, t>>, "x")
Write(t, p, v) == /\ Mode(p, t) = "x"
                  /\ ver' = [ver EXCEPT ![p] = v]
                  /\ UNCHANGED mode
(* the one thing a user relies on *)
Read(t, p, v) == /\ Mode(p, t) # "n"
                 /\ v # 0 /\ v = ver[p]
                 /\ UNCHANGED <<ver, mode>>
(* the device, after a flush or a blocking sync of the page *)
Device(p, v) == /\ v # 0 /\ v = ver[p]
                /\ UNCHANGED <<ver, mode>>
Free(t, s) == /\ \A k \in DOMAIN mode : k[1] \div PerExtent # s
              /\ ver' = [p \in Pages |-> IF p \div PerExtent = s THEN 0 ELSE ver[p]]
              /\ UNCHANGED mode

NoPage == [p \in Pages |-> 0]
Init == ver = NoPage /\ mode = None /\ l = 1
Step(k, t, p) == CASE k = "get" -> Get(t, p)
                   [] k = "unget" -> Unget(t, p)
                   [] k = "claim" -> Claim(t, p)
                   [] k = "unclaim" -> Unclaim(t, p)
                   [] k = "lock" -> Lock(t, p)
                   [] k = "unlock" -> Unlock(t, p)
                   [] k = "new" -> New(t, p, ev[4])
                   [] k = "wr" -> Write(t, p, ev[4])
                   [] k = "rd" -> Read(t, p, ev[4])
                   [] k = "dev" -> Device(p, ev[4])
                   [] k = "free" -> Free(t, p)
                   [] OTHER -> FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ CASE ev[1] = "reset" -> ver' = NoPage /\ mode' = None
             [] ev[1] = "done" -> ver = NoPage /\ mode = None /\ UNCHANGED <<ver, mode>>
             [] ev[1] \in {"died", "hung"} -> FALSE
             [] OTHER -> Step(ev[1], ev[2], ev[3])
(* a trace is one path: the position alone tells the states apart *)
View == l
TSpec == Init /\ [][Next]_vars
Exclusive == \A k \in DOMAIN mode : mode[k] = "x" =>
                \A j \in DOMAIN mode : j[1] = k[1] => j = k
OneClaim == \A k \in DOMAIN mode : mode[k] = "c" =>
                \A j \in DOMAIN mode : (j[1] = k[1] /\ j # k) => mode[j] = "r"
Accepted == LET n == TLCGet("stats").diameter - 1
            IN /\ PrintT(<<"MATCHED", n, Len(Trace)>>)
               /\ n = Len(Trace)
=============================================================================
