----------------------------- MODULE GenAuthProxy ------------------------------
EXTENDS AuthProxy, Json
CONSTANTS Emitting, MaxReqs, MaxSels, Faults, Plain
VARIABLES hist, n, leaked
gvars == <<world, open, metas, hist, n, leaked>>

Srcs == {"a", "b"}
Words == Srcs \cup {"n"}
Rels == {[n |-> S] : S \in SUBSET Srcs}
WordSets == (SUBSET Words) \ {{}}
Grants == {[t |-> "u", s |-> s] : s \in Words}
Worlds == {[admins |-> {"adm"}, bad |-> {"bad"}, grants |-> g, rel |-> rl, relnil |-> f = "rel", metafails |-> f = "meta", impostor |-> f = "impostor",
            stored |-> [a |-> 1, b |-> 2]] : g \in SUBSET Grants, rl \in Rels, f \in Faults}
Matcher == {[kind |-> "is", vals |-> W] : W \in WordSets} \cup {[kind |-> "not", vals |-> {"a"}]}
Sels == UNION {[1..k -> {{m} : m \in Matcher} \cup {{}}] : k \in 0..MaxSels} \cup (IF MaxSels < 2 THEN {} ELSE {<<{m, o}>> : m \in Matcher, o \in Matcher})
Queries == {[parses |-> TRUE, skel |-> "k", sels |-> s] : s \in Sels} \cup {[parses |-> FALSE, skel |-> "", sels |-> << >>]}
Req(ep, t, m, c, src, alts) == [ep |-> ep, token |-> t, method |-> m, clean |-> c, src |-> src, rest |-> "r", alts |-> alts]
Tokens == {"", "bad", "u", "adm"}
PlainRequests == {Req("read", t, "GET", TRUE, s, << >>) : t \in {"u", "adm"}, s \in Words}
                 \cup {Req(e, t, "GET", TRUE, "", <<[parses |-> TRUE, skel |-> "k", sels |-> <<{[kind |-> "is", vals |-> {s}]}>>]>>) : e \in {"query", "range"}, t \in {"u"}, s \in Words}
                 \cup {Req("meta", t, "GET", TRUE, "", << >>) : t \in {"u", "adm"}}
Requests == IF Plain THEN PlainRequests ELSE
            {Req("read", t, m, c, s, << >>) : t \in Tokens, m \in {"GET", "POST"}, c \in BOOLEAN, s \in Words}
            \cup {Req(e, t, "GET", TRUE, "", <<q>>) : e \in {"query", "range"}, t \in Tokens, q \in Queries}
            \cup (IF MaxSels > 1 THEN {} ELSE {Req("query", t, "GET", TRUE, "", <<q, p>>) : t \in {"u"}, q \in Queries, p \in Queries})
            \cup {Req(e, t, "GET", TRUE, "", << >>) : e \in {"meta", "info", "other"}, t \in Tokens}
            \cup (IF MaxSels > 1 THEN {} ELSE {Req("query", t, "POST", TRUE, "", <<q>>) : t \in {"u"}, q \in Queries})

H(r) == hist' = IF Emitting THEN Append(hist, r) ELSE hist
GInit == ApInit /\ world \in Worlds /\ n = 0 /\ leaked = {}
         /\ hist = IF Emitting THEN <<[op |-> "world", w |-> world]>> ELSE << >>
Idle == \A i \in DOMAIN open : open[i].stage = "done"
GWorld == /\ Idle /\ MaxReqs > 1 /\ n \in 1..(MaxReqs - 1) /\ open # << >>
          /\ \E w \in Worlds : w.rel = world.rel /\ w.impostor = world.impostor /\ World(w) /\ H([op |-> "world", w |-> w])
          /\ UNCHANGED <<n, leaked>>
GRequest == /\ Idle /\ n < MaxReqs /\ n' = n + 1
            /\ \E r \in Requests : Request(n + 1, r) /\ H([op |-> "request", r |-> r])
            /\ UNCHANGED leaked
Out == [code |-> 0, mark |-> "m"]
Pending == {i \in DOMAIN open : open[i].stage = "new"}
(* What a cache that is asked for s gives away. *)
Given(r) == IF r.ep = "read" THEN {r.src}
            ELSE UNION {UNION {NamesOf(Rewritten(r.token, q)[i]) : i \in DOMAIN q.sels} : q \in {r.alts[k] : k \in {m \in DOMAIN r.alts : MayAsk(r.token, r.alts[m])}}}
GAskMeta == \E o \in {Out, [code |-> 2, mark |-> ""]} : (world.metafails <=> o.code = 2) /\ AskedMeta(o) /\ UNCHANGED <<hist, n, leaked>>
GAsk == /\ \E i \in Pending : LET r == open[i].req IN
             /\ Permitted(r) /\ (r.ep = "read" => r.clean)
             /\ \E k \in IF r.ep \in {"query", "range"} THEN {j \in DOMAIN r.alts : MayAsk(r.token, r.alts[j])} ELSE {0} :
                \E o \in {Out, [code |-> 2, mark |-> ""]} :
                /\ o.code = 0
                /\ Asked(i, Rpc(r.ep), IF r.ep = "read" THEN [src |-> r.src, rest |-> r.rest]
                                       ELSE [skel |-> r.alts[k].skel, rest |-> r.rest, sels |-> Rewritten(r.token, r.alts[k])], o)
             /\ leaked' = leaked \cup {[t |-> r.token, s |-> s] : s \in {x \in Given(r) : ~May(r.token, x)}}
        /\ UNCHANGED <<hist, n>>
Marks == {"", "m", "info"}
GReply == /\ \E i \in DOMAIN open, st \in {200, 404, 500, 502}, m \in Marks :
             \E ids \in {{}, {[id |-> s, is |-> world.stored[s]] : s \in Visible(open[i].req.token)}} :
             open[i].stage # "done" /\ Reply(i, st, m, ids)
          /\ UNCHANGED <<hist, n, leaked>>
GNext == GWorld \/ GRequest \/ GAsk \/ GAskMeta \/ GReply
GSpec == GInit /\ [][GNext]_gvars
Emit == (Emitting /\ hist' # hist /\ n' = MaxReqs /\ hist'[Len(hist')].op = "request") => PrintT("SCN " \o ToJson(hist'))

(* Nobody is given what they may not read; the cache is never asked on behalf of nobody. *)
Tight == leaked = {}
NoToken == \A i \in DOMAIN open : open[i].stage = "asked" => open[i].req.token \notin {"", "bad"} /\ open[i].req.ep \in {"read", "query", "range", "meta"}
(* Every request has an answer. *)
Answered == \A i \in DOMAIN open : open[i].stage = "done" \/ ENABLED GAsk \/ ENABLED GAskMeta \/ ENABLED GReply
(* Administrators are refused nothing that makes sense. *)
AdminsServed == \A i \in DOMAIN open : LET r == open[i].req IN
                   r.token = "adm" /\ r.ep = "read" /\ r.clean /\ r.method = "GET" => ~Refusable(r)
===============================================================================
