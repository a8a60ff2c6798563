------------------------------- MODULE Mini --------------------------------
(***************************************************************************)
(* Lists of extents ("mini allocators") on top of Space: structures that   *)
(* own extents and give pages out of them.                                 *)
(*   st: id -> [keyed, nb, head, own, data, next, held, ext, blocked]      *)
(*     own:  extents it took from the allocator                            *)
(*     data: <<extent, batch, first key>> in the order they were opened    *)
(*     held: references on ranges of keys (keyed ones)                     *)
(*     ext:  references on the whole (unkeyed ones)                        *)
(* A keyed structure's extent lives as long as one held range meets the    *)
(* extent's keys; everything of a structure lives as long as one reference *)
(* is left.  At the end of every operation the reference counts of all     *)
(* extents must be what the structures say.                                *)
(***************************************************************************)
EXTENDS Space
VARIABLES st, op, pre
mvars == <<st, op, pre>>
Inf == 1000000
New(keyed, nb) == [keyed |-> keyed, nb |-> nb, head |-> 0, own |-> {}, data |-> <<>>, rel |-> FALSE,
                   next |-> [b \in 0 .. nb - 1 |-> 0], held |-> <<>>, ext |-> 1, gaps |-> FALSE, blocked |-> 0]
DataExts(s) == {s.data[j][1] : j \in DOMAIN s.data}
Batch(s, b) == SelectSeq(s.data, LAMBDA d : d[2] = b)
(* first and last key of the i-th extent of a batch; the first begins and   *)
(* the last ends nowhere                                                    *)
Span(q, i) == <<IF i = 1 THEN 0 ELSE q[i][3], IF i = Len(q) THEN Inf ELSE q[i + 1][3]>>
Meets(x, y) == x[1] <= y[2] /\ y[1] <= x[2]
Cover(s) == UNION {LET q == Batch(s, b) IN {<<q[i][1], Span(q, i)>> : i \in DOMAIN q} : b \in 0 .. s.nb - 1}
Count(held, x) == Cardinality({j \in DOMAIN held : Meets(held[j], x)})
Dead(s) == IF s.keyed THEN s.rel /\ s.held = <<>> ELSE s.ext = 0
Ref(e) == IF Free(e) THEN 0 ELSE ref[e]
Consistent(s) ==
   IF Dead(s) THEN \A e \in s.own : Free(e)
   ELSE /\ Ref(s.head) = (IF s.keyed THEN 2 + s.blocked ELSE 2 + s.ext)
        /\ \A x \in s.own \ (DataExts(s) \cup {s.head}) : Ref(x) \in {0, 2}
        /\ IF s.keyed /\ s.rel
           THEN \A c \in Cover(s) : LET n == Count(s.held, c[2]) IN Ref(c[1]) = (IF n = 0 THEN 0 ELSE 1 + n)
           ELSE \A e \in DataExts(s) : Ref(e) = 2
Live(s) == Cardinality({e \in s.own : ~Free(e)})
Drop(q, x) == LET j == CHOOSE j \in DOMAIN q : q[j] = x IN SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
Ids == DOMAIN st
Cur == op[2]

(* ---- what the operation asked of the allocator --------------------------*)
Raw ==
   /\ CASE ev[1] = "al" -> Alloc(ev[2], ev[4], ev[5])
        [] ev[1] = "inc" -> Inc(ev[2], ev[3])
        [] ev[1] = "dec" -> Dec(ev[2], ev[3])
        [] ev[1] = "pa" -> PageAlloc(ev[2], ev[3])
        [] ev[1] = "pg" -> Access(ev[2])
        [] ev[1] = "disc" -> Discard(ev[2])
   (* nothing of a structure shrinks while it is blocked *)
   /\ ev[1] = "dec" => \A i \in Ids : (st[i].blocked > 0 /\ ev[2] \in st[i].own /\ ev[2] # st[i].head) => FALSE
   /\ st' = IF ev[1] = "al" /\ ev[4] = 1 /\ op # <<>> /\ Cur \in Ids
            THEN [st EXCEPT ![Cur].own = @ \cup {ev[2]}] ELSE st
   /\ UNCHANGED <<op, pre>>
(* ---- pages ---------------------------------------------------------------*)
(* batch b of structure i gave out page p of extent e *)
Page(i, b, k, e, p, off, nx, alone) ==
   LET s == st[i]
       new == e \notin DataExts(s)
   IN /\ i \in Ids /\ i = Cur /\ off = 0
      /\ e \in s.own /\ e # s.head
      /\ new => ~Free(e) /\ ref[e] = 2
      /\ p \in used[e]
      /\ \A j \in DOMAIN s.data : s.data[j][1] = e => s.data[j][2] = b
      (* pages of a batch are neighbours, and the next extent is announced *)
      /\ alone => /\ s.gaps \/ used[e] = 0 .. p
                  /\ new => p = 0
                  /\ (new /\ s.next[b] # 0) => e = s.next[b]
                  /\ nx \in s.own /\ nx # e /\ nx \notin DataExts(s)
      /\ st' = [st EXCEPT ![i].data = IF new THEN Append(@, <<e, b, k>>) ELSE @,
                          ![i].next[b] = IF alone THEN nx ELSE 0]
      /\ UNCHANGED <<vars, op, pre>>
(* ---- operations -----------------------------------------------------------*)
Begin(o) ==
   /\ op = <<>> /\ op' = o /\ pre' = IF o[2] \in Ids THEN Live(st[o[2]]) ELSE 0
   /\ st' = CASE o[1] = "init" -> [k \in Ids \cup {o[2]} |-> IF k = o[2] THEN New(o[3] = 1, o[4]) ELSE st[k]]
              [] OTHER -> st
   /\ o[1] # "init" => o[2] \in Ids
   /\ UNCHANGED vars
SetOne(i, s) == /\ st' = [st EXCEPT ![i] = s]
                /\ Consistent(s)
Without2(i) == st' = [k \in Ids \ {i} |-> st[k]]
Finish(i, s) == IF Dead(s) THEN Consistent(s) /\ Without2(i) ELSE SetOne(i, s)
RECURSIVE DropAll(_, _)
DropAll(q, xs) == IF xs = <<>> THEN q ELSE DropAll(Drop(q, Head(xs)), Tail(xs))
End(r) ==
   /\ op # <<>>
   /\ LET i == op[2]  s == st[i]  o == op[1]
      IN CASE o = "init" -> SetOne(i, [s EXCEPT !.head = r]) /\ r \in s.own /\ Live(s) = 1 + s.nb
           [] o = "unused" -> Finish(i, [s EXCEPT !.rel = TRUE])
           [] o = "op" -> SetOne(i, s)
           [] o = "release" -> /\ SetOne(i, [s EXCEPT !.rel = TRUE, !.held = IF s.keyed THEN <<<<0, r>>>> ELSE <<>>])
                               /\ pre - Live(s) \in s.nb - 1 .. s.nb
           [] o = "reload" -> /\ SetOne(i, [s EXCEPT !.rel = FALSE, !.next = [b \in DOMAIN @ |-> 0]])
                              /\ Live(s) = pre + s.nb
           [] o = "uinc" -> SetOne(i, [s EXCEPT !.ext = @ + 1]) /\ r = s.ext + 1
           [] o = "udec" -> Finish(i, [s EXCEPT !.ext = @ - 1]) /\ r = s.ext - 1
           [] o = "kinc" -> SetOne(i, [s EXCEPT !.held = Append(@, <<op[3], op[4]>>)])
           [] o = "split" -> SetOne(i, [s EXCEPT !.held = Append(Append(Drop(@, <<op[3], op[4]>>), <<op[3], op[5]>>), <<op[5], op[4]>>)])
           [] o = "count" -> /\ r = Cardinality({c \in Cover(s) : Meets(c[2], <<op[3], op[4]>>)})
                             /\ SetOne(i, s)
           [] o = "kdec" -> LET n == [s EXCEPT !.held = Drop(@, <<op[3], op[4]>>), !.blocked = 0]
                            IN Finish(i, n) /\ r = (IF Dead(n) THEN 1 ELSE 0)
           [] o = "kdecs" -> LET n == [s EXCEPT !.held = DropAll(@, SubSeq(op, 4, Len(op)))]
                             IN Finish(i, n) /\ r = (IF Dead(n) THEN 1 ELSE 0)
           [] o = "kill" -> Consistent([s EXCEPT !.rel = TRUE, !.held = <<>>, !.ext = 0]) /\ Without2(i)
   (* no other structure was touched *)
   /\ \A j \in Ids \ {op[2]} : Consistent(st[j])
   /\ op' = <<>> /\ pre' = 0
   /\ UNCHANGED vars
Hold(a, b) == /\ op # <<>> /\ op[1] = "kdecs"
              /\ op' = Append(op, <<a, b>>)
              /\ UNCHANGED <<vars, st, pre>>
Block(i) == st' = [st EXCEPT ![i].blocked = 1] /\ UNCHANGED <<vars, op, pre>>
Unblock(i) == st' = [st EXCEPT ![i].blocked = 0] /\ UNCHANGED <<vars, op, pre>>
MInit == Init /\ st = Empty /\ op = <<>> /\ pre = 0
MNext ==
   /\ l <= Len(Trace) /\ l' = l + 1
   /\ CASE ev[1] = "reset" -> /\ ref' = Empty /\ used' = Empty /\ base' = {} /\ cap' = 0 /\ scan' = <<>>
                              /\ st' = Empty /\ op' = <<>> /\ pre' = 0
        [] ev[1] \in {"al", "inc", "dec", "pa", "pg", "disc"} -> Raw
        [] ev[1] = "ma" -> Page(ev[2], ev[3], ev[4], ev[5], ev[6], ev[7], ev[8], TRUE)
        [] ev[1] = "mac" -> Page(ev[2], ev[3], ev[4], ev[5], ev[6], ev[7], ev[8], FALSE)
        (* pages given out without a record: only the extents are followed *)
        [] ev[1] = "gaps" -> st' = [st EXCEPT ![ev[2]].gaps = TRUE] /\ UNCHANGED <<vars, op, pre>>
        [] ev[1] = "b" -> Begin(Tail(ev))
        [] ev[1] = "h" -> Hold(ev[2], ev[3])
        [] ev[1] = "e" -> End(IF Len(ev) > 1 THEN ev[2] ELSE 0)
        [] ev[1] = "block" -> Block(ev[2])
        [] ev[1] = "unblock" -> Unblock(ev[2])
        [] ev[1] = "mnt" -> ScanStart(IF ev[2] = 1 THEN "again" ELSE "new", ev[3], ev[4]) /\ UNCHANGED mvars
        [] ev[1] = "um" -> ScanStart(IF ev[2] = 1 THEN "empty" ELSE "all", ev[3], ev[4]) /\ UNCHANGED mvars
        [] ev[1] = "ref" -> ScanRef(ev[2], ev[3]) /\ UNCHANGED mvars
        [] ev[1] = "refs" -> ScanEnd /\ UNCHANGED mvars
        [] OTHER -> FALSE
MSpec == MInit /\ [][MNext]_<<vars, mvars, l>>
=============================================================================
