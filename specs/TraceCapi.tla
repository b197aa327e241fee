------------------------------ MODULE TraceCapi -------------------------------
EXTENDS Capi, TraceKit
tvars == <<cache, calls, reqs, ep, l>>
TInit == KInit /\ CInit
Soft == Cfg.p \div 2
Hard == Cfg.p + Cfg.p \div 2
Set(s) == {s[k] : k \in DOMAIN s}
TBegin == Step("call") /\ Begin(Ev.i, Ev.kind, Ev.tok, Ev.src, Ev.t)
(* A request bears the token of its call, and names are asked for as they were given. *)
TRequest == /\ Step("request") /\ Ev.proper
            /\ \E i \in DOMAIN calls : calls[i].tok = Ev.tok /\ (Ev.list = "named" => calls[i].src = Ev.names) /\ Request(i, Ev.list, Ev.page)
TAnswer == Step("answer") /\ Answer(Ev.r, Ev.items, Ev.next, Ev.ok, Ev.t)
TVerdict == Step("verdict") /\ Verdict(Ev.i, Ev.ok)
TAvailable == Step("available") /\ Available(Ev.i, Set(Ev.ids))
(* Pairs, since TLA+ functions have no JSON form of their own with arbitrary keys. *)
Fun(s) == [n \in {s[k][1] : k \in DOMAIN s} |-> s[CHOOSE k \in DOMAIN s : s[k][1] = n][2]]
TRelated == Step("related") /\ ~Ev.nil /\ IF Ev.none THEN NoneRelated(Ev.i, Fun(Ev.map)) ELSE Related(Ev.i, Fun(Ev.map))
TSize == /\ Step("size") /\ Ev.n = Cardinality(DOMAIN cache) /\ UNCHANGED cvars
         /\ \A t \in DOMAIN cache : Ev.t - cache[t].at <= Hard + Cfg.prune
TEnd == Step("end") /\ calls = Nothing /\ Ev.held = 0 /\ UNCHANGED cvars
TSilent == /\ More /\ Silent
           /\ \/ \E i \in DOMAIN calls : Load(i, Soft, Hard) \/ Store(i)
              \/ (Ev.op = "size" /\ \E t \in DOMAIN cache : Prune(t, Ev.t, Soft))
TNext == TBegin \/ TRequest \/ TAnswer \/ TVerdict \/ TAvailable \/ TRelated \/ TSize \/ TEnd \/ TSilent
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
