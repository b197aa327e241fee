----------------------------- MODULE TraceCluster ------------------------------
EXTENDS Cluster, TraceKit
tvars == <<up, route, store, pend, near, ep, l>>

TInit == KInit /\ CInit(Range(Cfg.nodes), Range(Cfg.srcs))
Table == [s \in Range(Cfg.srcs) |-> Range(Ev.t[s])]
Batch == {[src |-> x.src, id |-> x.id] : x \in Range(Ev.batch)}

TUp == Step("up") /\ Up(Ev.n)
TDown == Step("down") /\ Down(Ev.n)
TTell == Step("tell") /\ Tell(Range(Ev.ns), Table)
TScheduled == Step("scheduled") /\ Range(Ev.ns) = up /\ Scheduled(Table, Ev.factor) /\ Tell(up, Table)
(* Schedulers of which none leads leave the nodes as they are: untold. *)
TUnled == Step("unled") /\ Untold(Table) /\ UNCHANGED cvars
TSend == Step("send") /\ ~Ev.err /\ (IF Ev.only THEN SendLocal(Ev.via, Batch) ELSE Send(Ev.via, Batch))
TRelay == Step("relay") /\ Relay(Ev.via, Batch)
TRead == Step("read") /\ (IF Ev.err THEN ReadErr(Ev.via, Ev.src) ELSE IF Ev.how = "query" THEN QueryOk(Ev.via, Ev.src, Ev.ids, Ev.settled, Cfg.cap)
                         ELSE ReadOk(Ev.via, Ev.src, Ev.ids, Ev.settled, Cfg.cap, FALSE))
TMeta == Step("meta") /\ ~Ev.err /\ MetaOk(Ev.via, Ev.only, Range(Ev.meta), Cfg.cap)
(* Only who shows a certificate of the cluster gets an answer. *)
TStranger == Step("stranger") /\ Ev.err /\ UNCHANGED cvars
TNext == TStranger \/ TUnled \/ TRelay \/ TUp \/ TDown \/ TTell \/ TScheduled \/ TSend \/ TRead \/ TMeta
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
