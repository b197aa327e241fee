---------------------------- MODULE TraceAuthProxy -----------------------------
EXTENDS AuthProxy, TraceKit
tvars == <<world, open, metas, ep, l>>
NoWorld == [admins |-> {}, bad |-> {}, grants |-> {}, rel |-> << >>, relnil |-> FALSE, impostor |-> FALSE, stored |-> << >>]
Map(ps, V(_)) == [k \in {ps[i].k : i \in DOMAIN ps} |-> V((CHOOSE i \in DOMAIN ps : ps[i].k = k))]
W(w) == [admins |-> Range(w.admins), bad |-> Range(w.bad), grants |-> Range(w.grants), relnil |-> w.relnil, impostor |-> w.impostor,
         rel |-> Map(w.rel, LAMBDA i : Range(w.rel[i].v)), stored |-> Map(w.stored, LAMBDA i : w.stored[i].v)]
Q(q) == [parses |-> q.parses, skel |-> q.skel, sels |-> [i \in DOMAIN q.sels |-> {[kind |-> m.kind, vals |-> Range(m.vals)] : m \in Range(q.sels[i])}]]
Rq(r) == [ep |-> r.ep, token |-> r.token, method |-> r.method, clean |-> r.clean, src |-> r.src, rest |-> r.rest, alts |-> [i \in DOMAIN r.alts |-> Q(r.alts[i])]]
Args(rpc, a) == CASE rpc = "Read" -> [src |-> a.src, rest |-> a.rest]
                  [] OTHER -> [rest |-> a.rest, skel |-> a.q.skel, sels |-> Q(a.q).sels]

TInit == KInit /\ ApInit /\ world = NoWorld
TWorld   == Step("world") /\ World(W(Ev.w))
TRequest == Step("request") /\ Request(Ev.id, Rq(Ev.r))
TAsked   == Step("rpc") /\ Ev.rpc # "Meta" /\ Asked(Ev.id, Ev.rpc, Args(Ev.rpc, Ev.args), Ev.out)
TMeta    == Step("rpc") /\ Ev.rpc = "Meta" /\ AskedMeta(Ev.out)
TReply   == Step("reply") /\ Reply(Ev.id, Ev.st, Ev.mark, Range(Ev.ids))
(* What is not TLS 1.2 or later gets nothing out of the proxy. *)
TWeak    == Step("weak") /\ Ev.refused /\ UNCHANGED apvars
TNext == TWorld \/ TRequest \/ TAsked \/ TMeta \/ TReply \/ TWeak
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
