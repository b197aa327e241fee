----------------------------- MODULE TraceNozzle ------------------------------
EXTENDS Nozzle, TraceKit
tvars == <<come, gone, ok, bad, open, ep, l>>
TInit == KInit /\ NInit
(* The stream is asked once, for the configured shard and kinds, with preferred tags. *)
TAsk    == /\ Step("ask") /\ come = 0 /\ l = 1
           /\ Ev.shard = Cfg.shard /\ Ev.preferred /\ Range(Ev.kinds) = Range(Cfg.kinds) /\ Len(Ev.kinds) = Len(Cfg.kinds) /\ Ev.plain
           /\ UNCHANGED nvars
TArrive == Step("arrive") /\ Arrive(Ev.n)
TSend   == Step("send") /\ Ev.same /\ ~Ev.marked /\ Send(Ev.i, Ev.runs, Cfg.max)
TSent   == Step("sent") /\ Sent(Ev.i, Ev.ok)
TQuiet  == Step("quiet") /\ Quiet(Ev.ingress, Ev.egress, Ev.err, Cfg.lossy) /\ UNCHANGED nvars
TLate   == Step("late") /\ Cfg.lossy /\ UNCHANGED nvars
TNext == TAsk \/ TArrive \/ TSend \/ TSent \/ TQuiet \/ TLate
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
