--------------------------------- MODULE Walk ---------------------------------
(* The walk algorithm as its caller sees it: reads from a growing start, trims  *)
(* what is too new or beyond the end, hands every batch to the visitor.         *)
(*                                                                              *)
(* Time is a natural number; an envelope is too new iff its time is >= NewZone. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NewZone == 1000
NoEnd   == -1

VARIABLES
    conf,    \* [start, end, bk, max]
    cur,     \* start of the next read
    rempty,  \* the last read yielded nothing
    cnt,     \* failures in a row, as the backoff counts them
    ph,      \* what the walk does next
    batch    \* what is to be visited

wvars == <<conf, cur, rempty, cnt, ph, batch>>

WInit(c) == /\ conf = c /\ cur = c.start /\ rempty = FALSE /\ cnt = 0
            /\ ph = "read" /\ batch = <<>>

(* An ascending batch without what may not be delivered. *)
Trim(es) ==
    LET young == conf.end = NoEnd \/ ~rempty
    IN SelectSeq(es, LAMBDA e : (young => e.t < NewZone) /\ (conf.end # NoEnd => e.t < conf.end))

(* resp is <<>> or a batch; err and cancelled as booleans. *)
Read(st, es, err, cancelled) ==
    /\ ph = "read" /\ st = cur
    /\ batch' = IF err THEN <<>> ELSE Trim(es)
    /\ ph' = IF err THEN (IF cancelled THEN "done" ELSE "err")
             ELSE IF batch' = <<>> THEN "empty" ELSE "reset"
    /\ UNCHANGED <<conf, cur, rempty, cnt>>

Retry(onErr) ==
    CASE conf.bk = "done"   -> {FALSE}
      [] conf.bk = "always" -> {TRUE}
      [] conf.bk = "retry"  -> {cnt + 1 < conf.max}
      [] conf.bk = "onerr"  -> {onErr /\ cnt + 1 < conf.max}
      [] OTHER              -> {TRUE, FALSE}

OnErr(ret) ==
    /\ ph = "err" /\ ret \in Retry(TRUE)
    /\ cnt' = cnt + 1
    /\ ph' = IF ret THEN "read" ELSE "done"
    /\ UNCHANGED <<conf, cur, rempty, batch>>

OnEmpty(ret) ==
    /\ ph = "empty" /\ ret \in Retry(FALSE)
    /\ rempty' = TRUE
    /\ cnt' = cnt + (IF conf.bk = "onerr" THEN 0 ELSE 1)
    /\ ph' = IF ret THEN "read" ELSE "done"
    /\ UNCHANGED <<conf, cur, batch>>

Reset ==
    /\ ph = "reset" /\ cnt' = 0 /\ ph' = "visit"
    /\ UNCHANGED <<conf, cur, rempty, batch>>

Visit(ids, ret) ==
    /\ ph = "visit" /\ ids = [i \in DOMAIN batch |-> batch[i].id]
    /\ rempty' = FALSE
    /\ LET last == batch[Len(batch)].t IN
       /\ cur' = last + 1
       /\ ph' = IF ~ret \/ (conf.end # NoEnd /\ last + 1 >= conf.end) THEN "done" ELSE "read"
    /\ UNCHANGED <<conf, cnt, batch>>

Done == ph = "done" /\ ph' = "over" /\ UNCHANGED <<conf, cur, rempty, cnt, batch>>
===============================================================================
