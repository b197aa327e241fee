----------------------------- MODULE TraceSyslog ------------------------------
EXTENDS Syslog, TraceKit
tvars == <<todo, stored, lost, invalid, ep, l>>
TInit == KInit /\ SInit(Cfg.conns)
TSkip == More /\ (\E c \in DOMAIN todo : Skip(c)) /\ Silent
TGot  == Step("got") /\ \E c \in DOMAIN todo : Store(c, Ev.e, Ev.ok)
(* A silent connection is closed, and only a silent one. *)
TCut  == Step("cut") /\ Cfg.idle /\ todo[Ev.c] = <<>> /\ UNCHANGED svars
TEnd  == Step("end") /\ Finished(Ev.ingress, Ev.invalid) /\ UNCHANGED svars
TNext == TSkip \/ TGot \/ TCut \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
