---------------------------- MODULE TraceConcStore ----------------------------
(* Histories of concurrent calls.  A call event carries what the call returned; *)
(* the call takes effect in one silent step between its call and its return     *)
(* event (a put, a read of one source), or in several: a prune removes one      *)
(* envelope at a time, and meta visits one source at a time.                    *)
EXTENDS LogStore, TraceKit
VARIABLE pend    \* pending call -> [e: its event, done, left/todo]
tvars == <<max, db, exp, newest, expTotal, pend, ep, l>>

TInit == KInit /\ SInit(Cfg.max) /\ pend = Empty
AllSrcs == Range(Cfg.srcs)

TCall == /\ Step("call") /\ UNCHANGED svars
         /\ pend' = (Ev.i :> [e |-> Ev, done |-> FALSE,
                              left |-> IF Ev.k = "prune" THEN Ev.n ELSE 0,
                              todo |-> IF Ev.k = "meta" THEN AllSrcs ELSE {}]) @@ pend

Ids(s) == [i \in DOMAIN s |-> s[i].id]

LPut(i) == LET e == pend[i].e IN
    /\ e.k = "put" /\ ~pend[i].done
    /\ Put(e.src, [id |-> e.id, t |-> e.t, ty |-> "LOG", nm |-> {}])
    /\ pend' = [pend EXCEPT ![i].done = TRUE]
LGet(i) == LET e == pend[i].e IN
    /\ e.k = "get" /\ ~pend[i].done
    /\ e.res = Ids(Read(e.src, 0, 1000000, {}, FALSE, {}, 1000000, FALSE))
    /\ pend' = [pend EXCEPT ![i].done = TRUE] /\ UNCHANGED svars
LMeta(i) == LET e == pend[i].e IN
    /\ e.k = "meta" /\ ~pend[i].done
    /\ \E s \in pend[i].todo :
        /\ IF s \in DOMAIN db THEN MetaOf(s) \in Range(e.res) ELSE \A r \in Range(e.res) : r.src # s
        /\ pend' = [pend EXCEPT ![i].todo = @ \ {s}, ![i].done = (pend[i].todo = {s})]
    /\ UNCHANGED svars
(* A prune beside other calls: at most n heads of sources go. *)
LPrune(i) == LET e == pend[i].e IN
    /\ e.k = "prune" /\ pend[i].left > 0
    /\ \E s \in DOMAIN db :
        LET stay == Len(db[s]) > 1
            D    == IF stay THEN DOMAIN db ELSE DOMAIN db \ {s}
        IN /\ db' = [x \in D |-> IF x = s THEN Tail(db[s]) ELSE db[x]]
           /\ exp' = [x \in D |-> IF x = s THEN exp[x] + 1 ELSE exp[x]]
           /\ newest' = [x \in D |-> newest[x]]
           /\ expTotal' = expTotal + 1
           /\ UNCHANGED max
    /\ pend' = [pend EXCEPT ![i].left = @ - 1]
Lin == Silent /\ \E i \in DOMAIN pend : LPut(i) \/ LGet(i) \/ LMeta(i) \/ LPrune(i)

TRet == /\ Step("ret") /\ UNCHANGED svars
        /\ pend[Ev.i].e.k = "prune" \/ pend[Ev.i].done
        /\ pend' = [x \in DOMAIN pend \ {Ev.i} |-> pend[x]]

(* At rest the counters agree with the contents. *)
TRest == /\ Step("rest") /\ DOMAIN pend = {} /\ UNCHANGED <<svars, pend>>
         /\ Ev.expired = expTotal /\ Ev.size = Total
         /\ Ev.arg = Total

(* Many puts in parallel without a prune: what is held is what was put, less    *)
(* what the capacity evicted.                                                   *)
TBulk == /\ Step("bulk") /\ UNCHANGED <<svars, pend>>
         /\ \A i \in DOMAIN Ev.put :
               /\ Ev.held[i] = (IF Ev.put[i] < max THEN Ev.put[i] ELSE max)
               /\ Ev.exp[i] = Ev.put[i] - Ev.held[i]
               /\ Ev.distinct[i] = Ev.held[i]
               /\ Ev.sorted[i]
               /\ Ev.meta[i] = Ev.held[i]
               /\ Ev.mexp[i] = Ev.exp[i]
         /\ Ev.size = FoldSeq(LAMBDA x, n : x + n, 0, Ev.held)
         /\ Ev.expired = FoldSeq(LAMBDA x, n : x + n, 0, Ev.exp)

TNext == TCall \/ Lin \/ TRet \/ TRest \/ TBulk
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
