--------------------------------- MODULE Capi ---------------------------------
(* The client of the cloud controller.  A call for an authorization is answered *)
(* from the token's list if that is not older than a cache period and holds the *)
(* source; otherwise the lists of applications and of service instances are     *)
(* read, page by page, unless that was done in vain too often already.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
    cache,   \* token -> [ids, n, at]: the list, how often it was renewed in vain, when it was answered
    calls,   \* call -> [kind, tok, src, pc, n, t, pages, got, bad, at]
    reqs     \* sequence of [i, list], requests as they were made
cvars == <<cache, calls, reqs>>
Retries == 3
Nothing == [x \in {} |-> 0]
CInit == cache = Nothing /\ calls = Nothing /\ reqs = <<>>
Lists(kind) == IF kind = "related" THEN {"named"} ELSE {"apps", "services"}
(* pages: the page of each list that is due, 0 when there are no more; open: whether it has been asked for *)
Begin(i, kind, tok, src, t) ==
    /\ i \notin DOMAIN calls
    /\ calls' = (i :> [kind |-> kind, tok |-> tok, src |-> src, pc |-> IF kind = "auth" THEN "new" ELSE "ask", n |-> 0, t |-> t,
                       pages |-> [x \in Lists(kind) |-> 1], open |-> {}, got |-> [x \in Lists(kind) |-> <<>>], bad |-> FALSE, at |-> t]) @@ calls
    /\ UNCHANGED <<cache, reqs>>
(* soft, hard: the ages up to which a list must, and may, be used *)
Load(i, soft, hard) ==
    LET c == calls[i] tok == c.tok has == tok \in DOMAIN cache age == c.t - cache[tok].at IN
    /\ c.pc = "new" /\ UNCHANGED <<cache, reqs>>
    /\ \/ /\ has /\ age <= hard
          /\ calls' = IF c.src \in cache[tok].ids THEN [calls EXCEPT ![i].pc = "yes"]
                      ELSE IF cache[tok].n >= Retries THEN [calls EXCEPT ![i].pc = "no"]
                      ELSE [calls EXCEPT ![i].pc = "ask", ![i].n = cache[tok].n + 1]
       \/ /\ (IF has THEN age >= soft ELSE TRUE)
          /\ calls' = [calls EXCEPT ![i].pc = "ask", ![i].n = 0]
Request(i, list, page) ==
    LET c == calls[i] IN
    /\ c.pc = "ask" /\ ~c.bad /\ list \in DOMAIN c.pages /\ list \notin c.open /\ c.pages[list] = page /\ page # 0
    /\ calls' = [calls EXCEPT ![i].open = @ \cup {list}]
    /\ reqs' = Append(reqs, [i |-> i, list |-> list])
    /\ UNCHANGED cache
(* items: what the page lists; next: whether it names another *)
Answer(r, items, next, ok, t) ==
    LET i == reqs[r].i list == reqs[r].list c == calls[i] IN
    /\ list \in c.open
    /\ calls' = [calls EXCEPT ![i].open = @ \ {list}, ![i].at = t, ![i].bad = @ \/ ~ok,
                              ![i].got[list] = IF ok THEN @ \o items ELSE @,
                              ![i].pages[list] = IF ok /\ next THEN @ + 1 ELSE 0]
    /\ UNCHANGED <<cache, reqs>>
Complete(c) == c.open = {} /\ (c.bad \/ \A x \in DOMAIN c.pages : c.pages[x] = 0)
Ids(c) == IF c.bad THEN {} ELSE UNION {{c.got[x][k] : k \in DOMAIN c.got[x]} : x \in DOMAIN c.got}
Store(i) ==
    LET c == calls[i] IN
    /\ c.kind = "auth" /\ c.pc = "ask" /\ Complete(c)
    /\ cache' = (c.tok :> [ids |-> Ids(c), n |-> c.n, at |-> c.at]) @@ cache
    /\ calls' = [calls EXCEPT ![i].pc = IF c.src \in Ids(c) THEN "yes" ELSE "no"]
    /\ UNCHANGED reqs
End(i) == calls' = [x \in DOMAIN calls \ {i} |-> calls[x]] /\ UNCHANGED <<cache, reqs>>
Verdict(i, ok) == calls[i].kind = "auth" /\ calls[i].pc = (IF ok THEN "yes" ELSE "no") /\ End(i)
Available(i, ids) == calls[i].kind = "avail" /\ Complete(calls[i]) /\ ids = Ids(calls[i]) /\ End(i)
(* Names to sources: got.named holds <<name, source>> pairs in the controller's order. *)
RECURSIVE Named(_, _)
Named(s, n) == IF s = <<>> THEN <<>> ELSE (IF Head(s)[1] = n THEN <<Head(s)[2]>> ELSE <<>>) \o Named(Tail(s), n)
Related(i, f) ==
    LET c == calls[i] s == IF c.bad THEN <<>> ELSE c.got["named"] IN
    /\ c.kind = "related" /\ Complete(c)
    /\ DOMAIN f = {s[k][1] : k \in DOMAIN s}
    /\ \A n \in DOMAIN f : f[n] = Named(s, n)
    /\ End(i)
(* Nothing was asked for, so nothing is asked. *)
NoneRelated(i, f) == calls[i].kind = "related" /\ DOMAIN f = {} /\ calls[i].pages["named"] = 1 /\ calls[i].open = {} /\ End(i)
(* Lists that cannot be used any more are dropped before long. *)
Prune(tok, t, soft) == /\ tok \in DOMAIN cache /\ t - cache[tok].at >= soft
                       /\ cache' = [x \in DOMAIN cache \ {tok} |-> cache[x]] /\ UNCHANGED <<calls, reqs>>
===============================================================================
