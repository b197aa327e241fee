----------------------------- MODULE TraceBatcher -----------------------------
EXTENDS Batcher, TraceKit
tvars == <<put, last, sent, dropped, ep, l>>
TInit == KInit /\ BInit
TPut   == Step("put") /\ Put(Ev.p, Ev.n)
TBatch == Step("batch") /\ Ev.marked /\ Ev.same /\ Size(Ev.runs) = Ev.size /\ Batch(Ev.runs, Cfg.size)
TDrop  == Step("drop") /\ Drop(Ev.n)
TEnd   == Step("end") /\ Drained /\ UNCHANGED bvars
TNext == TPut \/ TBatch \/ TDrop \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
