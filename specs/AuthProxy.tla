------------------------------- MODULE AuthProxy -------------------------------
(* The authenticating proxy in front of the gateway: which requests reach the   *)
(* cache, for which sources, and what comes back.                               *)
(*                                                                              *)
(* The world is what the services consulted say at the moment: admins and bad   *)
(* are sets of tokens, grants a set of [t, s] (token t may read source s), rel  *)
(* gives the sources related to a name, relnil says that none can be told,      *)
(* stored is what the cache holds, impostor that the gateway cannot prove who   *)
(* it is.                                                                       *)
(*                                                                              *)
(* A request is [ep, token, method, clean, src, rest, alts].  For ep read, src  *)
(* is the source of its path and clean whether the path is in normal form; for  *)
(* query and range, alts are the queries the request contains (more than one    *)
(* only if it says so twice), each [parses, skel, sels]: sels are its selectors *)
(* in order, each the set of its source_id matchers [kind, vals], kind "is" for *)
(* = and =~ and "not" for != and !~, and skel is all the rest of it.  rest are  *)
(* the other parameters.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES world, open,     \* open: request id -> [req, stage, out]
          metas            \* how many requests for meta the cache answered [ok], failed [bad], for requests still open
apvars == <<world, open, metas>>

None == [ep |-> "none", stage |-> "none"]

Related(s) == IF s \in DOMAIN world.rel THEN world.rel[s] ELSE {}
Valid(t) == t # "" /\ t \notin world.bad
May(t, s) == t \in world.admins \/ [t |-> t, s |-> s] \in world.grants
Expand(t, s) == {x \in Related(s) \cup {s} : May(t, x)}

NamesOf(sel) == UNION {m.vals : m \in {x \in sel : x.kind = "is"}}
Names(q) == UNION {NamesOf(q.sels[i]) : i \in DOMAIN q.sels}
MayAsk(t, q) == /\ q.parses /\ ~world.relnil
                /\ Names(q) # {}
                /\ \A s \in Names(q) : Expand(t, s) # {}
Rewritten(t, q) == [i \in DOMAIN q.sels |-> {IF m.kind = "is" THEN [kind |-> "is", vals |-> UNION {Expand(t, s) : s \in m.vals}] ELSE m : m \in q.sels[i]}]

Permitted(r) == /\ Valid(r.token)
                /\ CASE r.ep = "read" -> May(r.token, r.src)
                     [] r.ep \in {"query", "range"} -> \E i \in DOMAIN r.alts : MayAsk(r.token, r.alts[i])
                     [] r.ep = "meta" -> TRUE
                     [] OTHER -> FALSE
(* May this request be refused?  What is written oddly may be; what is plain and permitted may not. *)
Refusable(r) == \/ ~Valid(r.token)
                \/ CASE r.ep = "read" -> ~May(r.token, r.src) \/ ~r.clean \/ r.method # "GET"
                     [] r.ep \in {"query", "range"} -> (\E i \in DOMAIN r.alts : ~MayAsk(r.token, r.alts[i])) \/ r.method # "GET"
                     [] r.ep = "meta" -> FALSE
                     [] r.ep = "info" -> r.method # "GET"
                     [] OTHER -> TRUE

Rpc(ep) == CASE ep = "read" -> "Read" [] ep = "query" -> "InstantQuery" [] ep = "range" -> "RangeQuery" [] ep = "meta" -> "Meta" [] OTHER -> "-"

(* What the cache may be asked on behalf of r. *)
Fits(r, rpc, args) ==
    /\ rpc = Rpc(r.ep)
    /\ CASE r.ep = "read" -> r.clean /\ args.src = r.src /\ args.rest = r.rest
         [] r.ep \in {"query", "range"} -> /\ args.rest = r.rest
                                           /\ \E i \in DOMAIN r.alts : /\ MayAsk(r.token, r.alts[i])
                                                                       /\ args.skel = r.alts[i].skel
                                                                       /\ args.sels = Rewritten(r.token, r.alts[i])
         [] OTHER -> TRUE

HTTPStatus(code) == CASE code = 0 -> 200 [] code = 2 -> 500 [] code = 3 -> 400 [] code = 5 -> 404 [] code = 14 -> 503 [] OTHER -> 500
Client(st) == st >= 300 /\ st < 500
Visible(t) == {s \in DOMAIN world.stored : t \in world.admins \/ [t |-> t, s |-> s] \in world.grants}

ApInit == open = << >> /\ metas = [ok |-> 0, bad |-> 0]
World(w) == (\A i \in DOMAIN open : open[i].stage = "done") /\ world' = w /\ open' = << >> /\ UNCHANGED metas
Request(id, r) == /\ id \notin DOMAIN open
                  /\ open' = open @@ (id :> [req |-> r, stage |-> "new", out |-> [code |-> 0, mark |-> ""]])
                  /\ UNCHANGED <<world, metas>>
Asked(id, rpc, args, out) == /\ id \in DOMAIN open /\ open[id].stage = "new" /\ ~world.impostor
                             /\ Permitted(open[id].req) /\ Fits(open[id].req, rpc, args)
                             /\ open[id].req.ep # "meta"
                             /\ open' = [open EXCEPT ![id].stage = "asked", ![id].out = out]
                             /\ UNCHANGED <<world, metas>>
(* The proxy asks for meta on its own, which does not tell on whose behalf. *)
AskedMeta(out) == /\ ~world.impostor
                  /\ Cardinality({i \in DOMAIN open : open[i].stage = "new" /\ open[i].req.ep = "meta" /\ Permitted(open[i].req)}) > metas.ok + metas.bad
                  /\ metas' = (IF out.code = 0 THEN [metas EXCEPT !.ok = @ + 1] ELSE [metas EXCEPT !.bad = @ + 1])
                  /\ UNCHANGED <<world, open>>
Reply(id, st, mark, ids) ==
    /\ id \in DOMAIN open
    /\ LET o == open[id]  r == o.req
       IN /\ CASE o.stage = "new" ->
                    \/ st = 200 /\ r.ep = "info" /\ mark = "info" /\ ~world.impostor
                    \/ mark = "" /\ ids = {} /\ Refusable(r) /\ (Client(st) \/ (r.method # "GET" /\ st = 501))
                    \/ mark = "" /\ ids = {} /\ world.impostor /\ st >= 500 /\ (r.ep = "info" \/ Permitted(r))
                    \/ r.ep = "meta" /\ metas.bad > 0 /\ mark = "" /\ ids = {} /\ st >= 500
                    \/ r.ep = "meta" /\ metas.ok > 0 /\ Permitted(r) /\ st = 200 /\ ids = {[id |-> s, is |-> world.stored[s]] : s \in Visible(r.token)}
               [] o.stage = "asked" -> IF o.out.code = 0 THEN st = 200 /\ mark = o.out.mark ELSE mark = "" /\ ids = {} /\ st = HTTPStatus(o.out.code)
               [] OTHER -> FALSE
          /\ metas' = (IF r.ep # "meta" \/ Client(st) \/ world.impostor THEN metas
                       ELSE IF st = 200 THEN [metas EXCEPT !.ok = @ - 1] ELSE [metas EXCEPT !.bad = @ - 1])
    /\ open' = [open EXCEPT ![id].stage = "done"]
    /\ UNCHANGED world
===============================================================================
