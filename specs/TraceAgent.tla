------------------------------ MODULE TraceAgent ------------------------------
EXTENDS Agent, TraceKit
tvars == <<bag, pend, held, ep, l>>
TInit == KInit /\ AInit
TStart == Step("start") /\ Start(Ev.i, Ev.kind, Ev.r)
TDo    == Silent /\ \E i \in DOMAIN pend : Do(i)
TEnd   == Step("end") /\ ~Ev.err /\ EndChange(Ev.i)
TList  == Step("listed") /\ ~Ev.err /\ EndList(Ev.i, BagOf(Ev.rs))
TAgain == Step("again") /\ Again(Ev.i, BagOf(Ev.rs))
(* A table is handed on unchanged, once, and the router's answer comes back. *)
TSet   == Step("set") /\ Ev.calls = 1 /\ Ev.same /\ Ev.back /\ UNCHANGED avars
TNext == TStart \/ TDo \/ TEnd \/ TList \/ TAgain \/ TSet
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
