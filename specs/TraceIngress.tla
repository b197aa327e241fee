----------------------------- MODULE TraceIngress -----------------------------
EXTENDS Ingress, TraceKit
tvars == <<out, ep, l>>
TInit == KInit /\ IInit
Route == [s \in DOMAIN Cfg.route |-> Range(Cfg.route[s])]
TStart == Step("send") /\ Start(Ev.i, Ev.batch, Route, 0..(Cfg.nodes - 1), Cfg.here, Ev.only)
(* same: the envelopes are unchanged *)
TRecv  == Step("recv") /\ Ev.same /\ Deliver(Ev.i, Ev.n, Ev.ids, Ev.marked, Ev.res)
TEnd   == Step("sent") /\ End(Ev.i, Ev.res)
TNext == TStart \/ TRecv \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
