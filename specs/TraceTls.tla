------------------------------- MODULE TraceTls -------------------------------
EXTENDS Tls, TraceKit
tvars == <<cfg, stage, conn, ep, l>>
TInit == KInit /\ TlsInit
TBuild   == Step("build") /\ Build([ca |-> Ev.ca, pair |-> Ev.pair, name |-> Ev.name], Ev.ok)
TConnect == Step("connect") /\ Connect(Ev.role, Ev.peer, Ev.ok, Ev.ver, Ev.cipher, Ev.ours)
(* A program with this configuration does not start with an unusable one. *)
TFatal   == Step("fatal") /\ stage = "error" /\ Ev.refused /\ UNCHANGED tlsvars
TNext == TBuild \/ TConnect \/ TFatal
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
