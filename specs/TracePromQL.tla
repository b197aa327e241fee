------------------------------ MODULE TracePromQL ------------------------------
EXTENDS PromQL, TraceKit
tvars == <<store, broken, last, ep, l>>
Pairs(s) == {<<s[i].k, s[i].v>> : i \in DOMAIN s}
Smp(x) == [src |-> x.src, inst |-> x.inst, tags |-> Pairs(x.tags), name |-> x.name, t |-> x.t, v |-> x.v]
Mat(m) == [kind |-> m.kind, vals |-> Range(m.vals)]
Lab(m) == [label |-> m.label, kind |-> m.kind, vals |-> Range(m.vals)]
Sel(s) == [names |-> {Mat(m) : m \in Range(s.names)}, sources |-> {Mat(m) : m \in Range(s.sources)}, matchers |-> {Lab(m) : m \in Range(s.matchers)},
           range |-> s.range, offset |-> s.offset]
Qu(q) == [parses |-> q.parses, kind |-> q.kind, sels |-> [i \in DOMAIN q.sels |-> Sel(q.sels[i])], start |-> q.start, end |-> q.end, step |-> q.step, scalar |-> q.scalar]
Ans(a) == [i \in DOMAIN a |-> [labels |-> Pairs(a[i].labels), points |-> a[i].points]]

TInit == KInit /\ PqInit
TWorld == Step("world") /\ World([i \in DOMAIN Ev.samples |-> Smp(Ev.samples[i])], Range(Ev.broken))
TFailed == Step("query") /\ Ev.err /\ Failed(Qu(Ev.q))
TAnswered == Step("query") /\ ~Ev.err /\ Answered(Qu(Ev.q), Ans(Ev.answer))
TNext == TWorld \/ TFailed \/ TAnswered
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
