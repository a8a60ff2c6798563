----------------------------- MODULE ClockCache -----------------------------
(***************************************************************************)
(* The protocol by which clockcache.c shares its entries: reference        *)
(* counts, and the status flags free / clean / writeback / loading /       *)
(* writelocked / claimed, one shared access per step.  Users get pages     *)
(* (loading them when absent), read and sometimes change them; an evictor  *)
(* frees clean entries; a cleaner writes dirty ones back.                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Users, Pages, Entries, MaxVer, Ops

(* --algorithm ClockCache
variables
  lookup = [p \in Pages |-> 0],
  addr   = [e \in Entries |-> 0],
  st     = [e \in Entries |-> {"free"}],
  ref    = [e \in Entries |-> [t \in Users \cup {"ev"} |-> 0]],
  data   = [e \in Entries |-> 0],
  disk   = [p \in Pages |-> 1],
  latest = [p \in Pages |-> 1];

process user \in Users
variables pg = 0, en = 0, n = 0;
begin
u0: while n < Ops do
      n := n + 1;
      with x \in Pages do pg := x; end with;
g1:   en := lookup[pg];
      if en = 0 then goto l1; end if;
g2:   if "wl" \in st[en] then goto g1; end if;
g3:   ref[en][self] := ref[en][self] + 1;
g4:   if "free" \in st[en] \/ "wl" \in st[en] then
g4b:    ref[en][self] := ref[en][self] - 1;
        goto g1;
      end if;
g5:   if addr[en] # pg then
g5b:    ref[en][self] := ref[en][self] - 1;
        goto g1;
      end if;
g6:   await "loading" \notin st[en];
      goto got;
l1:   with x \in {x \in Entries : st[x] = {"free"}} do
        en := x;
        st[x] := {"wl", "claimed"};
      end with;
l2:   ref[en][self] := ref[en][self] + 1;
l3:   st[en] := {"clean", "loading"};
l4:   if lookup[pg] = 0 then
        lookup[pg] := en;
      else
l4b:    ref[en][self] := ref[en][self] - 1;
l4c:    st[en] := {"free"};
        goto g1;
      end if;
l5:   addr[en] := pg;
l6:   data[en] := disk[pg];
l7:   st[en] := st[en] \ {"loading"};
got:  assert addr[en] = pg /\ data[en] = latest[pg];
c1:   either goto rel; or skip; end either;
c2:   if "claimed" \in st[en] then goto rel;
      else st[en] := st[en] \cup {"claimed"}; end if;
w1:   st[en] := st[en] \cup {"wl"};
w2:   await "wb" \notin st[en];
w3:   await \A t \in (Users \cup {"ev"}) \ {self} : ref[en][t] = 0;
      assert addr[en] = pg /\ data[en] = latest[pg];
w4:   if latest[pg] < MaxVer then
        latest[pg] := latest[pg] + 1 || data[en] := latest[pg] + 1;
w5:     st[en] := st[en] \ {"clean"};
      end if;
w6:   st[en] := st[en] \ {"wl"};
w7:   st[en] := st[en] \ {"claimed"};
rel:  assert addr[en] = pg /\ data[en] = latest[pg];
      ref[en][self] := ref[en][self] - 1;
      en := 0;
    end while;
end process;

process evictor = "ev"
variables v = 0;
begin
e0: while TRUE do
      with x \in Entries do v := x; end with;
e1:   if st[v] # {"clean"} then goto e0; end if;
e2:   if "wl" \in st[v] then goto e0; end if;
e3:   ref[v]["ev"] := 1;
e4:   if "free" \in st[v] \/ "wl" \in st[v] then goto er; end if;
e5:   if "claimed" \in st[v] then goto er;
      else st[v] := st[v] \cup {"claimed"}; end if;
e6:   if "loading" \in st[v] then goto ec; end if;
e7:   st[v] := st[v] \cup {"wl"};
e8:   if "wb" \in st[v] then goto ew; end if;
e9:   if \E t \in Users : ref[v][t] > 0 then goto ew; end if;
e10:  if st[v] # {"clean", "claimed", "wl"} then goto ew; end if;
e11:  if addr[v] # 0 then lookup[addr[v]] := 0; end if;
e11b: addr[v] := 0;
e12:  st[v] := {"free"};
      goto er;
ew:   st[v] := st[v] \ {"wl"};
ec:   st[v] := st[v] \ {"claimed"};
er:   ref[v]["ev"] := 0;
    end while;
end process;

process cleaner = "cl"
variables c = 0, buf = 0;
begin
k0: while TRUE do
      with x \in {x \in Entries : st[x] = {}} do
        c := x;
        st[x] := {"wb"};
      end with;
k1:   disk[addr[c]] := data[c];
k2:   st[c] := st[c] \cup {"clean"};
k3:   st[c] := st[c] \ {"wb"};
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, lookup, addr, st, ref, data, disk, latest, pg, en, n, v, c, buf

vars == << pc, lookup, addr, st, ref, data, disk, latest, pg, en, n, v, c, 
           buf >>

ProcSet == (Users) \cup {"ev"} \cup {"cl"}

Init == (* Global variables *)
        /\ lookup = [p \in Pages |-> 0]
        /\ addr = [e \in Entries |-> 0]
        /\ st = [e \in Entries |-> {"free"}]
        /\ ref = [e \in Entries |-> [t \in Users \cup {"ev"} |-> 0]]
        /\ data = [e \in Entries |-> 0]
        /\ disk = [p \in Pages |-> 1]
        /\ latest = [p \in Pages |-> 1]
        (* Process user *)
        /\ pg = [self \in Users |-> 0]
        /\ en = [self \in Users |-> 0]
        /\ n = [self \in Users |-> 0]
        (* Process evictor *)
        /\ v = 0
        (* Process cleaner *)
        /\ c = 0
        /\ buf = 0
        /\ pc = [self \in ProcSet |-> CASE self \in Users -> "u0"
                                        [] self = "ev" -> "e0"
                                        [] self = "cl" -> "k0"]

u0(self) == /\ pc[self] = "u0"
            /\ IF n[self] < Ops
                  THEN /\ n' = [n EXCEPT ![self] = n[self] + 1]
                       /\ \E x \in Pages:
                            pg' = [pg EXCEPT ![self] = x]
                       /\ pc' = [pc EXCEPT ![self] = "g1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << pg, n >>
            /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, en, v, 
                            c, buf >>

g1(self) == /\ pc[self] = "g1"
            /\ en' = [en EXCEPT ![self] = lookup[pg[self]]]
            /\ IF en'[self] = 0
                  THEN /\ pc' = [pc EXCEPT ![self] = "l1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "g2"]
            /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, n, 
                            v, c, buf >>

g2(self) == /\ pc[self] = "g2"
            /\ IF "wl" \in st[en[self]]
                  THEN /\ pc' = [pc EXCEPT ![self] = "g1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "g3"]
            /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, 
                            n, v, c, buf >>

g3(self) == /\ pc[self] = "g3"
            /\ ref' = [ref EXCEPT ![en[self]][self] = ref[en[self]][self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "g4"]
            /\ UNCHANGED << lookup, addr, st, data, disk, latest, pg, en, n, v, 
                            c, buf >>

g4(self) == /\ pc[self] = "g4"
            /\ IF "free" \in st[en[self]] \/ "wl" \in st[en[self]]
                  THEN /\ pc' = [pc EXCEPT ![self] = "g4b"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "g5"]
            /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, 
                            n, v, c, buf >>

g4b(self) == /\ pc[self] = "g4b"
             /\ ref' = [ref EXCEPT ![en[self]][self] = ref[en[self]][self] - 1]
             /\ pc' = [pc EXCEPT ![self] = "g1"]
             /\ UNCHANGED << lookup, addr, st, data, disk, latest, pg, en, n, 
                             v, c, buf >>

g5(self) == /\ pc[self] = "g5"
            /\ IF addr[en[self]] # pg[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "g5b"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "g6"]
            /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, 
                            n, v, c, buf >>

g5b(self) == /\ pc[self] = "g5b"
             /\ ref' = [ref EXCEPT ![en[self]][self] = ref[en[self]][self] - 1]
             /\ pc' = [pc EXCEPT ![self] = "g1"]
             /\ UNCHANGED << lookup, addr, st, data, disk, latest, pg, en, n, 
                             v, c, buf >>

g6(self) == /\ pc[self] = "g6"
            /\ "loading" \notin st[en[self]]
            /\ pc' = [pc EXCEPT ![self] = "got"]
            /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, 
                            n, v, c, buf >>

l1(self) == /\ pc[self] = "l1"
            /\ \E x \in {x \in Entries : st[x] = {"free"}}:
                 /\ en' = [en EXCEPT ![self] = x]
                 /\ st' = [st EXCEPT ![x] = {"wl", "claimed"}]
            /\ pc' = [pc EXCEPT ![self] = "l2"]
            /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, n, v, c, 
                            buf >>

l2(self) == /\ pc[self] = "l2"
            /\ ref' = [ref EXCEPT ![en[self]][self] = ref[en[self]][self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "l3"]
            /\ UNCHANGED << lookup, addr, st, data, disk, latest, pg, en, n, v, 
                            c, buf >>

l3(self) == /\ pc[self] = "l3"
            /\ st' = [st EXCEPT ![en[self]] = {"clean", "loading"}]
            /\ pc' = [pc EXCEPT ![self] = "l4"]
            /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, 
                            v, c, buf >>

l4(self) == /\ pc[self] = "l4"
            /\ IF lookup[pg[self]] = 0
                  THEN /\ lookup' = [lookup EXCEPT ![pg[self]] = en[self]]
                       /\ pc' = [pc EXCEPT ![self] = "l5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "l4b"]
                       /\ UNCHANGED lookup
            /\ UNCHANGED << addr, st, ref, data, disk, latest, pg, en, n, v, c, 
                            buf >>

l4b(self) == /\ pc[self] = "l4b"
             /\ ref' = [ref EXCEPT ![en[self]][self] = ref[en[self]][self] - 1]
             /\ pc' = [pc EXCEPT ![self] = "l4c"]
             /\ UNCHANGED << lookup, addr, st, data, disk, latest, pg, en, n, 
                             v, c, buf >>

l4c(self) == /\ pc[self] = "l4c"
             /\ st' = [st EXCEPT ![en[self]] = {"free"}]
             /\ pc' = [pc EXCEPT ![self] = "g1"]
             /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, 
                             v, c, buf >>

l5(self) == /\ pc[self] = "l5"
            /\ addr' = [addr EXCEPT ![en[self]] = pg[self]]
            /\ pc' = [pc EXCEPT ![self] = "l6"]
            /\ UNCHANGED << lookup, st, ref, data, disk, latest, pg, en, n, v, 
                            c, buf >>

l6(self) == /\ pc[self] = "l6"
            /\ data' = [data EXCEPT ![en[self]] = disk[pg[self]]]
            /\ pc' = [pc EXCEPT ![self] = "l7"]
            /\ UNCHANGED << lookup, addr, st, ref, disk, latest, pg, en, n, v, 
                            c, buf >>

l7(self) == /\ pc[self] = "l7"
            /\ st' = [st EXCEPT ![en[self]] = st[en[self]] \ {"loading"}]
            /\ pc' = [pc EXCEPT ![self] = "got"]
            /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, 
                            v, c, buf >>

got(self) == /\ pc[self] = "got"
             /\ Assert(addr[en[self]] = pg[self] /\ data[en[self]] = latest[pg[self]], 
                       "Failure of assertion at line 58, column 7.")
             /\ pc' = [pc EXCEPT ![self] = "c1"]
             /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, 
                             n, v, c, buf >>

c1(self) == /\ pc[self] = "c1"
            /\ \/ /\ pc' = [pc EXCEPT ![self] = "rel"]
               \/ /\ TRUE
                  /\ pc' = [pc EXCEPT ![self] = "c2"]
            /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, 
                            n, v, c, buf >>

c2(self) == /\ pc[self] = "c2"
            /\ IF "claimed" \in st[en[self]]
                  THEN /\ pc' = [pc EXCEPT ![self] = "rel"]
                       /\ st' = st
                  ELSE /\ st' = [st EXCEPT ![en[self]] = st[en[self]] \cup {"claimed"}]
                       /\ pc' = [pc EXCEPT ![self] = "w1"]
            /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, 
                            v, c, buf >>

w1(self) == /\ pc[self] = "w1"
            /\ st' = [st EXCEPT ![en[self]] = st[en[self]] \cup {"wl"}]
            /\ pc' = [pc EXCEPT ![self] = "w2"]
            /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, 
                            v, c, buf >>

w2(self) == /\ pc[self] = "w2"
            /\ "wb" \notin st[en[self]]
            /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, 
                            n, v, c, buf >>

w3(self) == /\ pc[self] = "w3"
            /\ \A t \in (Users \cup {"ev"}) \ {self} : ref[en[self]][t] = 0
            /\ Assert(addr[en[self]] = pg[self] /\ data[en[self]] = latest[pg[self]], 
                      "Failure of assertion at line 65, column 7.")
            /\ pc' = [pc EXCEPT ![self] = "w4"]
            /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, 
                            n, v, c, buf >>

w4(self) == /\ pc[self] = "w4"
            /\ IF latest[pg[self]] < MaxVer
                  THEN /\ /\ data' = [data EXCEPT ![en[self]] = latest[pg[self]] + 1]
                          /\ latest' = [latest EXCEPT ![pg[self]] = latest[pg[self]] + 1]
                       /\ pc' = [pc EXCEPT ![self] = "w5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w6"]
                       /\ UNCHANGED << data, latest >>
            /\ UNCHANGED << lookup, addr, st, ref, disk, pg, en, n, v, c, buf >>

w5(self) == /\ pc[self] = "w5"
            /\ st' = [st EXCEPT ![en[self]] = st[en[self]] \ {"clean"}]
            /\ pc' = [pc EXCEPT ![self] = "w6"]
            /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, 
                            v, c, buf >>

w6(self) == /\ pc[self] = "w6"
            /\ st' = [st EXCEPT ![en[self]] = st[en[self]] \ {"wl"}]
            /\ pc' = [pc EXCEPT ![self] = "w7"]
            /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, 
                            v, c, buf >>

w7(self) == /\ pc[self] = "w7"
            /\ st' = [st EXCEPT ![en[self]] = st[en[self]] \ {"claimed"}]
            /\ pc' = [pc EXCEPT ![self] = "rel"]
            /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, 
                            v, c, buf >>

rel(self) == /\ pc[self] = "rel"
             /\ Assert(addr[en[self]] = pg[self] /\ data[en[self]] = latest[pg[self]], 
                       "Failure of assertion at line 72, column 7.")
             /\ ref' = [ref EXCEPT ![en[self]][self] = ref[en[self]][self] - 1]
             /\ en' = [en EXCEPT ![self] = 0]
             /\ pc' = [pc EXCEPT ![self] = "u0"]
             /\ UNCHANGED << lookup, addr, st, data, disk, latest, pg, n, v, c, 
                             buf >>

user(self) == u0(self) \/ g1(self) \/ g2(self) \/ g3(self) \/ g4(self)
                 \/ g4b(self) \/ g5(self) \/ g5b(self) \/ g6(self)
                 \/ l1(self) \/ l2(self) \/ l3(self) \/ l4(self)
                 \/ l4b(self) \/ l4c(self) \/ l5(self) \/ l6(self)
                 \/ l7(self) \/ got(self) \/ c1(self) \/ c2(self)
                 \/ w1(self) \/ w2(self) \/ w3(self) \/ w4(self)
                 \/ w5(self) \/ w6(self) \/ w7(self) \/ rel(self)

e0 == /\ pc["ev"] = "e0"
      /\ \E x \in Entries:
           v' = x
      /\ pc' = [pc EXCEPT !["ev"] = "e1"]
      /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, n, c, 
                      buf >>

e1 == /\ pc["ev"] = "e1"
      /\ IF st[v] # {"clean"}
            THEN /\ pc' = [pc EXCEPT !["ev"] = "e0"]
            ELSE /\ pc' = [pc EXCEPT !["ev"] = "e2"]
      /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, n, v, 
                      c, buf >>

e2 == /\ pc["ev"] = "e2"
      /\ IF "wl" \in st[v]
            THEN /\ pc' = [pc EXCEPT !["ev"] = "e0"]
            ELSE /\ pc' = [pc EXCEPT !["ev"] = "e3"]
      /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, n, v, 
                      c, buf >>

e3 == /\ pc["ev"] = "e3"
      /\ ref' = [ref EXCEPT ![v]["ev"] = 1]
      /\ pc' = [pc EXCEPT !["ev"] = "e4"]
      /\ UNCHANGED << lookup, addr, st, data, disk, latest, pg, en, n, v, c, 
                      buf >>

e4 == /\ pc["ev"] = "e4"
      /\ IF "free" \in st[v] \/ "wl" \in st[v]
            THEN /\ pc' = [pc EXCEPT !["ev"] = "er"]
            ELSE /\ pc' = [pc EXCEPT !["ev"] = "e5"]
      /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, n, v, 
                      c, buf >>

e5 == /\ pc["ev"] = "e5"
      /\ IF "claimed" \in st[v]
            THEN /\ pc' = [pc EXCEPT !["ev"] = "er"]
                 /\ st' = st
            ELSE /\ st' = [st EXCEPT ![v] = st[v] \cup {"claimed"}]
                 /\ pc' = [pc EXCEPT !["ev"] = "e6"]
      /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, v, c, 
                      buf >>

e6 == /\ pc["ev"] = "e6"
      /\ IF "loading" \in st[v]
            THEN /\ pc' = [pc EXCEPT !["ev"] = "ec"]
            ELSE /\ pc' = [pc EXCEPT !["ev"] = "e7"]
      /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, n, v, 
                      c, buf >>

e7 == /\ pc["ev"] = "e7"
      /\ st' = [st EXCEPT ![v] = st[v] \cup {"wl"}]
      /\ pc' = [pc EXCEPT !["ev"] = "e8"]
      /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, v, c, 
                      buf >>

e8 == /\ pc["ev"] = "e8"
      /\ IF "wb" \in st[v]
            THEN /\ pc' = [pc EXCEPT !["ev"] = "ew"]
            ELSE /\ pc' = [pc EXCEPT !["ev"] = "e9"]
      /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, n, v, 
                      c, buf >>

e9 == /\ pc["ev"] = "e9"
      /\ IF \E t \in Users : ref[v][t] > 0
            THEN /\ pc' = [pc EXCEPT !["ev"] = "ew"]
            ELSE /\ pc' = [pc EXCEPT !["ev"] = "e10"]
      /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, n, v, 
                      c, buf >>

e10 == /\ pc["ev"] = "e10"
       /\ IF st[v] # {"clean", "claimed", "wl"}
             THEN /\ pc' = [pc EXCEPT !["ev"] = "ew"]
             ELSE /\ pc' = [pc EXCEPT !["ev"] = "e11"]
       /\ UNCHANGED << lookup, addr, st, ref, data, disk, latest, pg, en, n, v, 
                       c, buf >>

e11 == /\ pc["ev"] = "e11"
       /\ IF addr[v] # 0
             THEN /\ lookup' = [lookup EXCEPT ![addr[v]] = 0]
             ELSE /\ TRUE
                  /\ UNCHANGED lookup
       /\ pc' = [pc EXCEPT !["ev"] = "e11b"]
       /\ UNCHANGED << addr, st, ref, data, disk, latest, pg, en, n, v, c, buf >>

e11b == /\ pc["ev"] = "e11b"
        /\ addr' = [addr EXCEPT ![v] = 0]
        /\ pc' = [pc EXCEPT !["ev"] = "e12"]
        /\ UNCHANGED << lookup, st, ref, data, disk, latest, pg, en, n, v, c, 
                        buf >>

e12 == /\ pc["ev"] = "e12"
       /\ st' = [st EXCEPT ![v] = {"free"}]
       /\ pc' = [pc EXCEPT !["ev"] = "er"]
       /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, v, c, 
                       buf >>

ew == /\ pc["ev"] = "ew"
      /\ st' = [st EXCEPT ![v] = st[v] \ {"wl"}]
      /\ pc' = [pc EXCEPT !["ev"] = "ec"]
      /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, v, c, 
                      buf >>

ec == /\ pc["ev"] = "ec"
      /\ st' = [st EXCEPT ![v] = st[v] \ {"claimed"}]
      /\ pc' = [pc EXCEPT !["ev"] = "er"]
      /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, v, c, 
                      buf >>

er == /\ pc["ev"] = "er"
      /\ ref' = [ref EXCEPT ![v]["ev"] = 0]
      /\ pc' = [pc EXCEPT !["ev"] = "e0"]
      /\ UNCHANGED << lookup, addr, st, data, disk, latest, pg, en, n, v, c, 
                      buf >>

evictor == e0 \/ e1 \/ e2 \/ e3 \/ e4 \/ e5 \/ e6 \/ e7 \/ e8 \/ e9 \/ e10
              \/ e11 \/ e11b \/ e12 \/ ew \/ ec \/ er

k0 == /\ pc["cl"] = "k0"
      /\ \E x \in {x \in Entries : st[x] = {}}:
           /\ c' = x
           /\ st' = [st EXCEPT ![x] = {"wb"}]
      /\ pc' = [pc EXCEPT !["cl"] = "k1"]
      /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, v, buf >>

k1 == /\ pc["cl"] = "k1"
      /\ disk' = [disk EXCEPT ![addr[c]] = data[c]]
      /\ pc' = [pc EXCEPT !["cl"] = "k2"]
      /\ UNCHANGED << lookup, addr, st, ref, data, latest, pg, en, n, v, c, 
                      buf >>

k2 == /\ pc["cl"] = "k2"
      /\ st' = [st EXCEPT ![c] = st[c] \cup {"clean"}]
      /\ pc' = [pc EXCEPT !["cl"] = "k3"]
      /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, v, c, 
                      buf >>

k3 == /\ pc["cl"] = "k3"
      /\ st' = [st EXCEPT ![c] = st[c] \ {"wb"}]
      /\ pc' = [pc EXCEPT !["cl"] = "k0"]
      /\ UNCHANGED << lookup, addr, ref, data, disk, latest, pg, en, n, v, c, 
                      buf >>

cleaner == k0 \/ k1 \/ k2 \/ k3

Next == evictor \/ cleaner
           \/ (\E self \in Users: user(self))

Spec == Init /\ [][Next]_vars

\* END TRANSLATION
(* every lookup leads to an entry, no two to the same one; a free entry has *)
(* no address; what is clean is on the device                               *)
Mapped == /\ \A a \in Pages : lookup[a] # 0 =>
               addr[lookup[a]] = a \/ "loading" \in st[lookup[a]] \/ "wl" \in st[lookup[a]]
          /\ \A a, b \in Pages : (a # b /\ lookup[a] # 0) => lookup[a] # lookup[b]
          /\ \A b \in Entries : "free" \in st[b] => addr[b] = 0
          /\ \A b \in Entries : addr[b] # 0 /\ "clean" \in st[b] /\ st[b] \cap {"loading", "wl"} = {} =>
               data[b] = disk[addr[b]]
          /\ \A a \in Pages : lookup[a] = 0 => disk[a] = latest[a]
=============================================================================
