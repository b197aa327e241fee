---------------------------- MODULE TraceSourceIds -----------------------------
EXTENDS SourceIds, TraceKit
tvars == <<told, ep, l>>
Q(x) == [parses |-> x.parses, skel |-> x.skel, sels |-> [i \in DOMAIN x.sels |-> {[kind |-> m.kind, vals |-> Range(m.vals)] : m \in Range(x.sels[i])}]]
Map(ps) == [k \in {ps[i].k : i \in DOMAIN ps} |-> Range(ps[CHOOSE i \in DOMAIN ps : ps[i].k = k].v)]

TInit == KInit /\ SiInit
TExtract == Step("extract") /\ Extracted(Q(Ev.q), Ev.err, Range(Ev.ids))
(* The map is the caller's. *)
TReplace == Step("replace") /\ Ev.same /\ Replaced(Q(Ev.q), Map(Ev.map), Ev.err, IF Ev.err THEN Q(Ev.q) ELSE Q(Ev.q2))
TParse == Step("parse") /\ Parsed(Ev.what, Ev.p, Ev.ok, Ev.v)
TNext == TExtract \/ TReplace \/ TParse
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
