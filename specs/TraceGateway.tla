----------------------------- MODULE TraceGateway -----------------------------
EXTENDS Gateway, TraceKit
tvars == <<req, stage, out, ep, l>>
TInit == KInit /\ GwInit
TRequest == Step("request") /\ Request(Ev)
TAsk     == Step("rpc") /\ Ask(Ev.rpc, Ev.args)
TAnswer  == Step("answer") /\ Answer(Ev)
TDown    == Silent /\ Unreachable
TAbort   == Step("abort") /\ Abort
TCancel  == Step("cancelled") /\ Cancelled
TReply   == Step("reply") /\ Reply(Ev.st, Ev.json, Ev.doc) /\ (Ev.st = 200 => Ev.nl)
(* A plain HTTP request to the TLS port gets nothing out of it. *)
TPlain   == Step("plain") /\ Ev.refused /\ UNCHANGED gwvars
(* The built program says its version, and an uptime that makes sense. *)
TBinfo   == Step("binfo") /\ stage = "idle" /\ Ev.version = "7.8.9" /\ Ev.uptime /\ UNCHANGED gwvars
(* A storm: all requests at once, each answered as if alone. *)
TNext == TRequest \/ TAsk \/ TAnswer \/ TDown \/ TAbort \/ TCancel \/ TReply \/ TPlain \/ TBinfo
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
