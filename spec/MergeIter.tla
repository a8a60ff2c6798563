----------------------------- MODULE MergeIter -----------------------------
(***************************************************************************)
(* Merging sorted sources.  Sources 1..S, source S the newest; each holds  *)
(* at most one message per key of 1..K: "-" none, "i" insert, "u" update,  *)
(* "d" delete.  The value a message carries is the id <<10*s + k>>.        *)
(*                                                                         *)
(* Modes: "full" finalizes updates and drops deletions, "inter" combines   *)
(* the messages of one key but keeps updates and deletions, "raw" returns  *)
(* every message of every source.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  src,    \* sequence (oldest first) of sequences of message kinds
  mode,
  pos     \* 0 before the first, K+1 after the last, else the current key;
          \* raw: <<key, set of sources already returned for it>>

NSrc(sr) == Len(sr)
NKey(sr) == IF sr = <<>> THEN 0 ELSE Len(sr[1])
Id(s, k) == 10 * s + k

(* newest-to-oldest combination of the messages of key k in sources s..1   *)
RECURSIVE Fold(_, _, _)
Fold(sr, s, k) ==
  IF s = 0 THEN [kind |-> "-", ids |-> <<>>]
  ELSE CASE sr[s][k] = "-" -> Fold(sr, s - 1, k)
         [] sr[s][k] = "i" -> [kind |-> "i", ids |-> <<Id(s, k)>>]
         [] sr[s][k] = "d" -> [kind |-> "d", ids |-> <<>>]
         [] sr[s][k] = "u" ->
              LET o == Fold(sr, s - 1, k) IN
              CASE o.kind = "-" -> [kind |-> "u", ids |-> <<Id(s, k)>>]
                [] o.kind = "d" -> [kind |-> "i", ids |-> <<Id(s, k)>>]
                [] OTHER        -> [kind |-> o.kind, ids |-> o.ids \o <<Id(s, k)>>]
Msg(sr, md, k) == LET m == Fold(sr, NSrc(sr), k) IN
                  IF md = "full" /\ m.kind = "u" THEN [m EXCEPT !.kind = "i"] ELSE m
Live(sr, md, k) == LET m == Msg(sr, md, k) IN
                   m.kind # "-" /\ ~(md = "full" /\ m.kind = "d")
LiveSet(sr, md) == {k \in 1..NKey(sr) : Live(sr, md, k)}
Min(A) == CHOOSE x \in A : \A y \in A : x <= y
Max(A) == CHOOSE x \in A : \A y \in A : x >= y
Up(sr, md, k)   == LET A == {j \in LiveSet(sr, md) : j >= k} IN
                   IF A = {} THEN NKey(sr) + 1 ELSE Min(A)
Down(sr, md, k) == LET A == {j \in LiveSet(sr, md) : j <= k} IN
                   IF A = {} THEN 0 ELSE Max(A)
=============================================================================
