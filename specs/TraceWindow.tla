------------------------------ MODULE TraceWindow -----------------------------
EXTENDS Window, TraceKit
tvars == <<wc, k, wph, got, ep, l>>
TInit == KInit /\ WinInit([interval |-> Cfg.interval, width |-> Cfg.width])
TWalk  == /\ Step("walk") /\ WinWalk(Ev.off, Ev.span, Ev.es)
          /\ Ev.first   \* the first start is the configured one, or now - width
          /\ Ev.deadline  \* the walk may take one interval
          /\ Ev.ctx       \* its context is derived from the caller's
TVisit == Step("visit") /\ WinVisit(Ev.es, Ev.ret)
TDone  == Step("done") /\ WinDone
TNext == TWalk \/ TVisit \/ TDone
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
