------------------------------ MODULE TraceEgress -----------------------------
EXTENDS Egress, TraceKit
tvars == <<cur, kept, ep, l>>
TInit == KInit /\ EInit
Nodes == 0..(Cfg.nodes - 1)
TRead    == Step("read") /\ ReadStart(Range(Ev.owners))
TReadAsk == Step("readask") /\ Ev.same /\ ReadAsk(Ev.n, Cfg.here, Ev.res)
TReadEnd == Step("readend") /\ ReadEnd(Ev.res)
TMeta    == Step("meta") /\ MetaStart(Ev.only, Ev.t)
TMetaAsk == Step("metaask") /\ Ev.marked /\ MetaAsk(Ev.n, Ev.ok, Range(Ev.val))
TMetaEnd == /\ Step("metaend")
            /\ IF Ev.err THEN MetaFailed(Nodes, Cfg.here)
               ELSE \/ MetaFetched(Range(Ev.val), Ev.t, Nodes, Cfg.here)
                    \/ MetaCached(Range(Ev.val), Cfg.period)
TNext == TRead \/ TReadAsk \/ TReadEnd \/ TMeta \/ TMetaAsk \/ TMetaEnd
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
