------------------------------- MODULE TraceWalk ------------------------------
EXTENDS Walk, TraceKit
tvars == <<conf, cur, rempty, cnt, ph, batch, ep, l>>

TInit == KInit /\ WInit([start |-> Cfg.start, end |-> Cfg.end, bk |-> Cfg.bk, max |-> Cfg.max])

(* Every read asks for exactly what the walk was told to read. *)
TRead == /\ Step("read") /\ Read(Ev.start, Ev.es, Ev.err, Ev.cancelled)
         /\ Ev.src = Cfg.src /\ Ev.ctx
         /\ Ev.end = Cfg.end /\ Ev.limit = Cfg.limit
         /\ Ev.types = Cfg.types /\ Ev.name = Cfg.name /\ ~Ev.other
TErr   == Step("onerr") /\ OnErr(Ev.ret)
TEmpty == Step("onempty") /\ OnEmpty(Ev.ret)
TReset == Step("reset") /\ (Reset \/ (ph = "read" /\ cnt' = 0 /\ UNCHANGED <<conf, cur, rempty, ph, batch>>))
(* When the backoff is the library's own default, its calls are not seen. *)
SErr   == Cfg.mute /\ Silent /\ \E r \in BOOLEAN : OnErr(r) \/ OnEmpty(r)
SReset == Cfg.mute /\ Silent /\ Reset
TVisit == Step("visit") /\ Visit(Ev.ids, Ev.ret)
(* The visit before the reset is as good. *)
TVisit2 == /\ Step("visit") /\ ph = "reset" /\ ~Cfg.mute
           /\ LET last == batch[Len(batch)].t IN
              /\ Ev.ids = [i \in DOMAIN batch |-> batch[i].id]
              /\ Ev.ret /\ (conf.end = NoEnd \/ last + 1 < conf.end)
              /\ cur' = last + 1 /\ ph' = "read" /\ rempty' = FALSE
           /\ UNCHANGED <<conf, cnt, batch>>
TDone  == Step("done") /\ Done

TNext == TRead \/ TErr \/ TEmpty \/ TReset \/ SErr \/ SReset \/ TVisit \/ TVisit2 \/ TDone
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
