---------------------------- MODULE MergeTrace -----------------------------
(* Validates walks of the real merge iterator over in-memory sources.      *)
EXTENDS MergeIter, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<src, mode, pos, l>>
ev == Trace[l]
Is(n) == l <= Len(Trace) /\ ev[1] = n /\ l' = l + 1

TInit == src = <<>> /\ mode = "full" /\ pos = 0 /\ l = 1

(* observation o = <<can_prev, can_next, key, kind, ids>> at position p    *)
Obs(o, sr, md, p) ==
  LET some == LiveSet(sr, md) # {} IN
  /\ (o[1] = 1 /\ o[2] = 1) <=> (p \in 1..NKey(sr))
  /\ p = 0 /\ some => o[1] = 0 /\ o[2] = 1
  /\ p = NKey(sr) + 1 /\ some => o[1] = 1 /\ o[2] = 0
  /\ p \in 1..NKey(sr) => /\ o[3] = p
                          /\ o[4] = Msg(sr, md, p).kind
                          /\ o[5] = Msg(sr, md, p).ids

(* ["new", mode, sources, start, forwards, obs]: sources positioned at the *)
(* first key >= start (forwards), or the last key < start (backwards)      *)
TNew == /\ Is("new") /\ ev[2] # "raw"
        /\ mode' = ev[2] /\ src' = ev[3]
        /\ LET p == IF ev[5] = 1 THEN Up(ev[3], ev[2], ev[4]) ELSE Down(ev[3], ev[2], ev[4] - 1)
           IN pos' = p /\ Obs(ev[6], ev[3], ev[2], p)
TNext1 == /\ Is("N") /\ mode # "raw"
          /\ pos <= NKey(src)
          /\ pos' = Up(src, mode, pos + 1) /\ UNCHANGED <<src, mode>>
          /\ Obs(ev[2], src, mode, pos')
TPrev1 == /\ Is("P") /\ mode # "raw"
          /\ pos >= 1
          /\ pos' = Down(src, mode, pos - 1) /\ UNCHANGED <<src, mode>>
          /\ Obs(ev[2], src, mode, pos')

(* raw: forwards only; each message of each source once, keys ascending     *)
Rest(k, done) == {<<j, s>> \in (1..NKey(src)) \X (1..NSrc(src)) :
                    src[s][j] # "-" /\ (j > k \/ (j = k /\ s \notin done))}
RawObs(o, k, done) ==
  LET R == Rest(k, done) IN
  IF R = {} THEN /\ o[2] = 0 /\ pos' = <<NKey(src) + 1, {}>>
  ELSE LET j == Min({r[1] : r \in R}) IN
       /\ o[1] = 1 /\ o[2] = 1 /\ o[3] = j
       /\ \E s \in 1..NSrc(src) :
            /\ <<j, s>> \in R
            /\ o[5] = (IF src[s][j] = "d" THEN <<>> ELSE <<Id(s, j)>>)
            /\ o[4] = src[s][j]
            \* which delete it was cannot be seen: take the newest
            /\ src[s][j] = "d" => \A t \in 1..NSrc(src) :
                 (<<j, t>> \in R /\ src[t][j] = "d") => t <= s
            /\ pos' = <<j, IF j = k THEN done \cup {s} ELSE {s}>>
TNewRaw == /\ Is("new") /\ ev[2] = "raw" /\ ev[5] = 1
           /\ mode' = "raw" /\ src' = ev[3]
           /\ LET R == {<<j, s>> \in (1..Len(ev[3][1])) \X (1..Len(ev[3])) :
                          ev[3][s][j] # "-" /\ j >= ev[4]}
                  o == ev[6] IN
              IF R = {} THEN o[2] = 0 /\ pos' = <<Len(ev[3][1]) + 1, {}>>
              ELSE LET j == Min({r[1] : r \in R}) IN
                   /\ o[1] = 1 /\ o[2] = 1 /\ o[3] = j
                   /\ \E s \in {r[2] : r \in {q \in R : q[1] = j}} :
                        /\ o[4] = ev[3][s][j]
                        /\ o[5] = (IF ev[3][s][j] = "d" THEN <<>> ELSE <<Id(s, j)>>)
                        /\ ev[3][s][j] = "d" => \A t \in 1..Len(ev[3]) :
                             (<<j, t>> \in R /\ ev[3][t][j] = "d") => t <= s
                        /\ pos' = <<j, {s}>>
TNextRaw == /\ Is("N") /\ mode = "raw" /\ UNCHANGED <<src, mode>>
            /\ RawObs(ev[2], pos[1], pos[2])

TNext == TNew \/ TNext1 \/ TPrev1 \/ TNewRaw \/ TNextRaw
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"MATCHED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
