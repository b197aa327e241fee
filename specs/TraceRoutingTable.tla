-------------------------- MODULE TraceRoutingTable ---------------------------
EXTENDS RoutingTable, TraceKit
tvars == <<table, pend, ep, l>>
TInit == KInit /\ RInit
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
TSet    == Step("set") /\ SetStart(Ev.i, Range(Ev.t))
TTake   == Silent /\ \E i \in DOMAIN pend : Take(i)
TSetEnd == Step("setend") /\ SetEnd(Ev.i) /\ ~Ev.err
TLook   == Step("look") /\ LookupStart(Ev.i, Ev.h)
(* res: from Lookup; once: each node once *)
TLookEnd == Step("lookend") /\ LookupEnd(Ev.i, Range(Ev.res)) /\ NoDup(Ev.res)
TStatic == Step("static") /\ Static(Ev.n, Ev.h, Ev.i) /\ UNCHANGED rvars
TNext == TSet \/ TTake \/ TSetEnd \/ TLook \/ TLookEnd \/ TStatic
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
