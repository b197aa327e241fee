-------------------------------- MODULE Client --------------------------------
(* The read client: which requests a call makes, and what it answers, given     *)
(* what the server says.                                                        *)
(*                                                                              *)
(* An answer of the server is [st, body]: st is the status, 0 if the request    *)
(* failed; body classifies what the body holds:                                 *)
(*   good     what this endpoint is supposed to answer                          *)
(*   junk     no JSON, or JSON of the wrong shape                               *)
(*   cut      breaks off with a read error                                      *)
(*   none     empty                                                             *)
(*   new/old  for the info endpoint: good, with a version >= 2.0.0 or before    *)
(*   noup     for the info endpoint: good, but without an uptime                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    call,   \* the call in progress, [m |-> "none"] if none
    stage,  \* idle, info, main: what is to be requested; done, fail: what is to be returned
    base,   \* API path in force for this call
    open    \* answers whose body is not closed

cvars == <<call, stage, base, open>>
None == [m |-> "none"]
CInit == call = None /\ stage = "idle" /\ base = "" /\ open = 0

Versioned == {"Read", "Meta"}
Info      == {"Version", "Uptime"}
Raw       == {"PromQLRaw", "PromQLRangeRaw"}
GRPC      == {"Read", "Meta", "PromQL", "PromQLRange"}

Call(c) == /\ stage = "idle" /\ call' = c
           /\ stage' = (IF c.grpc /\ c.m \in GRPC THEN "rpc"
                        ELSE IF c.badaddr THEN "fail"
                        ELSE IF c.m \in Versioned \cup Info THEN "info" ELSE "main")
           /\ base' = "" /\ UNCHANGED open

Path == CASE call.m = "Read" -> base \o "/read/" \o call.src
          [] call.m = "Meta" -> base \o "/meta"
          [] call.m \in {"PromQL", "PromQLRaw"} -> "/api/v1/query"
          [] call.m \in {"PromQLRange", "PromQLRangeRaw"} -> "/api/v1/query_range"

IsInfo(path) == path = "/api/v1/info"

Ask(path, query) ==
    \/ stage = "info" /\ IsInfo(path) /\ query = <<>> /\ stage' = "info?" /\ UNCHANGED <<call, base, open>>
    \/ stage = "main" /\ path = Path /\ query = call.query /\ stage' = "main?" /\ UNCHANGED <<call, base, open>>

GoodInfo(b) == b \in {"new", "old", "noup"}

Answer(st, body) ==
    /\ open' = IF st = 0 THEN open ELSE open + 1
    /\ UNCHANGED call
    /\ \/ /\ stage = "info?" /\ call.m \in Versioned
          /\ base' = IF st = 404 \/ (st = 200 /\ body = "old") THEN "/v1" ELSE "/api/v1"
          /\ stage' = IF st = 404 \/ (st = 200 /\ GoodInfo(body)) THEN "main" ELSE "fail"
       \/ /\ stage = "info?" /\ call.m = "Version" /\ UNCHANGED base
          /\ stage' = IF st = 404 \/ (st = 200 /\ GoodInfo(body)) THEN "done" ELSE "fail"
       \/ /\ stage = "info?" /\ call.m = "Uptime" /\ UNCHANGED base
          /\ stage' = IF st = 200 /\ GoodInfo(body) /\ body # "noup" THEN "done" ELSE "fail"
       \/ /\ stage = "main?" /\ UNCHANGED base
          /\ stage' = IF body = "good" /\ (st = 200 \/ (call.m \in Raw /\ st \in {400, 500})) THEN "done" ELSE "fail"

Close == open > 0 /\ open' = open - 1 /\ UNCHANGED <<call, stage, base>>

(* gRPC: one request, which carries exactly the options *)
Rpc(args, ok) == /\ stage = "rpc" /\ args = call.rpc
                 /\ stage' = (IF ok THEN "done" ELSE "fail") /\ UNCHANGED <<call, base, open>>
RpcLost == stage = "rpc" /\ call.dead /\ stage' = "fail" /\ UNCHANGED <<call, base, open>>

Return(err) == /\ stage = (IF err THEN "fail" ELSE "done") /\ open = 0
               /\ call' = None /\ stage' = "idle" /\ base' = "" /\ UNCHANGED open
===============================================================================
