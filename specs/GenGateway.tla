------------------------------ MODULE GenGateway ------------------------------
EXTENDS Gateway, Json
CONSTANTS Emitting, MaxParams
VARIABLES hist, asked
gvars == <<req, stage, out, hist, asked>>

(* How a parameter is given: its own name or the JSON name, and its values. *)
States == {"good", "json", "bad", "goodbad", "badgood"}
Val2(s) == CASE s \in {"good", "json"} -> <<[good |-> TRUE, canon |-> "x"]>>
             [] s = "bad" -> <<[good |-> FALSE, canon |-> ""]>>
             [] s = "goodbad" -> <<[good |-> TRUE, canon |-> "x"], [good |-> FALSE, canon |-> ""]>>
             [] s = "badgood" -> <<[good |-> FALSE, canon |-> ""], [good |-> TRUE, canon |-> "x"]>>
Texts == {"query", "time", "start", "end", "step", "name_filter"}   \* no text is bad
ParamSets(route) == UNION {[F -> States] : F \in {G \in SUBSET Fields(route) : Cardinality(G) <= MaxParams}}
Fine(s) == \A f \in DOMAIN s : f \in Texts => s[f] \in {"good", "json"}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Params(s) == LET q == ToSeq(DOMAIN s) IN [i \in DOMAIN q |-> [key |-> IF s[q[i]] = "json" THEN JsonName(q[i]) ELSE q[i], vals |-> Val2(s[q[i]])]]
ParamList(s) == LET q == ToSeq(DOMAIN s) IN [i \in DOMAIN q |-> [f |-> q[i], how |-> s[q[i]]]]
Size(s) == Cardinality(DOMAIN s)

Srcs == {"plain", "slash", "escaped", "unicode", "colon", "unclean", "empty"}
Codes == 1..16

GInit == GwInit /\ hist = <<>> /\ asked = 0
H(r) == hist' = IF Emitting THEN Append(hist, r) ELSE hist
GRequest == /\ hist = <<>> \/ ~Emitting
            /\ stage = "idle" /\ asked' = 0
            /\ \E route \in Known \cup {"info", "none"}, m \in {"GET", "POST", "PUT", "DELETE", "HEAD"}, src \in Srcs, ign \in BOOLEAN :
               \E s \in ParamSets(route) :
               /\ Fine(s)
               /\ (route # "read" => src = "plain")
               /\ (route = "info" => m = "GET")
               /\ (m # "GET" => Size(s) <= 1 /\ src \in {"plain", "slash"} /\ ~ign)
               /\ (src # "plain" => Size(s) <= 1)
               /\ Request([method |-> m, route |-> route, src |-> src, clean |-> src # "unclean", down |-> TRUE, info |-> "i", params |-> Params(s)])
               /\ H([op |-> "request", route |-> route, method |-> m, src |-> src, params |-> ParamList(s), other |-> ign])
GAsk == /\ stage = "due" /\ Ask(Rpc(req.route), Args(req)) /\ asked' = asked + 1 /\ UNCHANGED hist
GAnswer == \/ /\ Answer([code |-> 0, msg |-> "", doc |-> "d"]) /\ H([op |-> "answer", code |-> 0]) /\ UNCHANGED asked
           \/ \E c \in Codes : Len(req.params) <= 1 /\ Answer([code |-> c, msg |-> "m", doc |-> ""]) /\ H([op |-> "answer", code |-> c]) /\ UNCHANGED asked
GDown == Unreachable /\ Len(req.params) = 0 /\ H([op |-> "down"]) /\ UNCHANGED asked
GAbort == Abort /\ Len(req.params) <= 1 /\ H([op |-> "abort"]) /\ UNCHANGED asked
GCancelled == Cancelled /\ UNCHANGED <<hist, asked>>
Docs == {"d", "i", [error |-> "m", message |-> "m", code |-> 3], [error |-> "m", message |-> "m", code |-> 14],
         [status |-> "error", errorType |-> "internal", error |-> "m"]}
GReply == /\ \/ Reply(IF stage = "answered" THEN HTTPStatus(out.code) ELSE IF stage = "bad" THEN 400 ELSE IF stage = "down" THEN 503 ELSE 200, TRUE,
                    IF stage = "answered" /\ out.code = 0 THEN "d" ELSE IF stage = "info" THEN "i"
                    ELSE ErrorDoc(req.route, IF stage = "bad" THEN 3 ELSE IF stage = "down" THEN 14 ELSE out.code, "m"))
             \/ stage = "refuse" /\ Reply(405, FALSE, "")
             \/ stage = "due" /\ Reply(301, FALSE, "")
          /\ UNCHANGED <<hist, asked>>
GNext == GRequest \/ GAsk \/ GAnswer \/ GDown \/ GAbort \/ GCancelled \/ GReply
GSpec == GInit /\ [][GNext]_gvars
Emit == (Emitting /\ hist' # <<>> /\ stage' = "idle") => PrintT("SCN " \o ToJson(hist'))

(* Refused requests never reach the cache; others do at most once. *)
AskedOnce == asked <= 1 /\ (stage \in {"bad", "refuse", "info"} => asked = 0)
(* The source asked for is the path's, whatever the parameters say. *)
OwnSource == stage = "due" /\ req.route = "read" => Args(req).source_id = <<req.src>>
===============================================================================
