------------------------------- MODULE AccessLog ------------------------------
(* The access log: every request yields one line, before it is served, whatever *)
(* becomes of the line or of the request.                                       *)
EXTENDS Integers, Sequences, TLC

VARIABLES
    open,    \* requests on their way and not yet logged: id -> request
    logged,  \* ids logged and not yet served, refused or answered
    served   \* ids that reached the service
avars == <<open, logged, served>>
NoReq == [x \in {} |-> 0]
AInit == open = NoReq /\ logged = {} /\ served = {}

(* The first forwarded address, or the peer's. *)
Source(r) == IF r.fwd # <<>> /\ r.fwd[1].text # "" THEN r.fwd[1] ELSE r.peer
Target(r) == IF r.query = "" THEN r.path ELSE r.path \o "?" \o r.query
Line(r, rt, host, port) ==
    "CEF:0|cloud_foundry|log_cache|1.0|" \o r.method \o " " \o Target(r) \o "|" \o r.method \o " " \o Target(r) \o "|0|rt=" \o rt
    \o " cs1Label=userAuthenticationMechanism cs1=oauth-access-token cs2Label=vcapRequestId cs2=" \o r.vcap
    \o " request=" \o Target(r) \o " requestMethod=" \o r.method \o " src=" \o Source(r).host \o " spt=" \o Source(r).port
    \o " dst=" \o host \o " dpt=" \o port

Come(i, r) == i \notin DOMAIN open \cup logged /\ open' = (i :> r) @@ open /\ UNCHANGED <<logged, served>>
Log(i) == /\ i \in DOMAIN open /\ open' = [x \in DOMAIN open \ {i} |-> open[x]] /\ logged' = logged \cup {i} /\ UNCHANGED served
Serve(i) == i \in logged /\ i \notin served /\ served' = served \cup {i} /\ UNCHANGED <<open, logged>>
(* The answer comes last; a request that was not refused has been served. *)
Answer(i, refused) == /\ i \in logged /\ (i \in served <=> ~refused)
                      /\ logged' = logged \ {i} /\ served' = served \ {i} /\ UNCHANGED open
Quiet == open = NoReq /\ logged = {} /\ served = {}
LoggedFirst == served \subseteq logged
===============================================================================
