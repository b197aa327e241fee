-------------------------------- MODULE Gateway -------------------------------
(* The HTTP gateway: which gRPC request an HTTP request is, and how the outcome *)
(* comes back.                                                                  *)
(*                                                                              *)
(* A request is [method, route, src, clean, params].  route is read, meta,      *)
(* query, range, info or none; src is the rest of the path of a read, decoded.  *)
(* clean says whether the path is in normal form (no empty or dot segments and  *)
(* no colon at the start of the last one): a path that is not may be refused or *)
(* redirected, but not read as another one.  A parameter is                     *)
(* [key, vals], a value [good, canon]: whether it is of the parameter's type,   *)
(* and its value in one canonical text.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* The fields of each gRPC request, their kinds, and the keys that name them. *)
Fields(route) == CASE route = "read"  -> {"start_time", "end_time", "limit", "envelope_types", "descending", "name_filter"}
                   [] route = "meta"  -> {"local_only"}
                   [] route = "query" -> {"query", "time"}
                   [] route = "range" -> {"query", "start", "end", "step"}
                   [] OTHER -> {}
Repeated == {"envelope_types"}
JsonName(f) == CASE f = "start_time" -> "startTime" [] f = "end_time" -> "endTime" [] f = "envelope_types" -> "envelopeTypes"
                 [] f = "name_filter" -> "nameFilter" [] f = "local_only" -> "localOnly" [] OTHER -> f
Default(f) == CASE f \in {"start_time", "end_time", "limit"} -> <<"0">>
                [] f \in {"descending", "local_only"} -> <<"false">>
                [] f = "envelope_types" -> <<>>
                [] OTHER -> <<"">>

Naming(r, f) == {p \in {r.params[i] : i \in DOMAIN r.params} : p.key \in {f, JsonName(f)}}
Used(f, vals) == IF f \in Repeated THEN vals ELSE SubSeq(vals, 1, 1)
Bad(r) == \E f \in Fields(r.route) : \E p \in Naming(r, f) : \E i \in DOMAIN Used(f, p.vals) : ~Used(f, p.vals)[i].good
Val(r, f) == IF Naming(r, f) = {} THEN Default(f)
             ELSE LET v == Used(f, (CHOOSE p \in Naming(r, f) : TRUE).vals) IN [i \in DOMAIN v |-> v[i].canon]
Args(r) == [f \in Fields(r.route) |-> Val(r, f)] @@ (IF r.route = "read" THEN [source_id |-> <<r.src>>] ELSE <<>>)

Rpc(route) == CASE route = "read" -> "Read" [] route = "meta" -> "Meta" [] route = "query" -> "InstantQuery" [] route = "range" -> "RangeQuery"
Known == {"read", "meta", "query", "range"}

HTTPStatus(code) == CASE code = 0 -> 200 [] code = 1 -> 408 [] code = 2 -> 500 [] code = 3 -> 400 [] code = 4 -> 504 [] code = 5 -> 404
                      [] code = 6 -> 409 [] code = 7 -> 403 [] code = 16 -> 401 [] code = 8 -> 429 [] code = 9 -> 400 [] code = 10 -> 409
                      [] code = 11 -> 400 [] code = 12 -> 501 [] code = 13 -> 500 [] code = 14 -> 503 [] code = 15 -> 500 [] OTHER -> 500

VARIABLES req, stage, out      \* out: the outcome of the gRPC request [code, msg, doc]
gwvars == <<req, stage, out>>
NoReq == [route |-> "none", params |-> <<>>]
NoOut == [code |-> 0, msg |-> "", doc |-> ""]
GwInit == req = NoReq /\ stage = "idle" /\ out = NoOut

Request(r) == /\ stage = "idle" /\ req' = r /\ UNCHANGED out
              /\ stage' = (IF r.route = "info" THEN "info"
                           ELSE IF r.route = "none" \/ r.method # "GET" THEN "refuse"
                           ELSE IF Bad(r) THEN "bad"
                           ELSE "due")

(* The cache is asked: exactly once, for exactly what the request spells. *)
Ask(rpc, args) == /\ stage = "due" /\ rpc = Rpc(req.route) /\ args = Args(req)
                  /\ stage' = "asked" /\ UNCHANGED <<req, out>>
Answer(o) == stage = "asked" /\ stage' = "answered" /\ out' = o /\ UNCHANGED req
(* The cache cannot be reached. *)
Unreachable == stage = "due" /\ req.down /\ stage' = "down" /\ UNCHANGED <<req, out>>
(* The client goes away, and the cache is told so. *)
Abort == stage = "asked" /\ stage' = "aborted" /\ UNCHANGED <<req, out>>
Cancelled == stage = "aborted" /\ stage' = "idle" /\ req' = NoReq /\ out' = NoOut
             
(* What an error looks like. *)
Queries == {"query", "range"}
ErrorDoc(route, code, msg) == IF route \in Queries THEN [status |-> "error", errorType |-> "internal", error |-> msg]
                              ELSE [error |-> msg, message |-> msg, code |-> code]

(* status, whether it is JSON, the document; form is "error" or "ok" *)
Reply(st, json, doc) ==
    /\ CASE stage \in {"due", "bad"} /\ ~req.clean /\ (st \in {301, 302, 307, 308} \/ (st >= 400 /\ st < 500)) -> TRUE
         [] stage = "answered" /\ out.code = 0 -> st = 200 /\ json /\ doc = out.doc
         [] stage = "answered" /\ out.code # 0 -> st = HTTPStatus(out.code) /\ json /\ doc = ErrorDoc(req.route, out.code, out.msg)
         [] stage = "bad"  -> st = 400 /\ json /\ doc.error # "" /\ doc = ErrorDoc(req.route, 3, doc.error)
         [] stage = "down" -> st = 503 /\ json /\ doc.error # "" /\ doc = ErrorDoc(req.route, 14, doc.error)
         [] stage = "info" -> st = 200 /\ doc = req.info
         [] stage = "refuse" -> st >= 400 /\ st < 500
         [] OTHER -> FALSE
    /\ stage' = "idle" /\ req' = NoReq /\ out' = NoOut
===============================================================================
