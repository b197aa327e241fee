------------------------------- MODULE GenClient ------------------------------
EXTENDS Client, Json
CONSTANTS Emitting, MaxCalls
VARIABLES hist, n
gvars == <<call, stage, base, open, hist, n>>
GInit == CInit /\ hist = <<>> /\ n = 0
H(r) == hist' = IF Emitting THEN Append(hist, r) ELSE hist

Statuses == {0, 200, 201, 400, 404, 500, 503}
GCall == /\ n < MaxCalls /\ n' = n + 1
         /\ \E m \in Versioned \cup Info \cup Raw \cup {"PromQL", "PromQLRange"}, g, d \in BOOLEAN :
            /\ (d => g /\ m \in GRPC)
            /\ (g => m \in GRPC)
            /\ Call([m |-> m, grpc |-> g, badaddr |-> FALSE, src |-> "s", query |-> "q", rpc |-> "r", dead |-> d])
            /\ H([op |-> "call", m |-> m, grpc |-> g, dead |-> d])
GAsk == /\ UNCHANGED <<hist, n>>
        /\ \/ stage = "info" /\ Ask("/api/v1/info", <<>>)
           \/ stage = "main" /\ Ask(Path, "q")
GAnswer == /\ stage \in {"info?", "main?"} /\ UNCHANGED n
           /\ \E st \in Statuses, b \in (IF stage = "info?" THEN {"new", "old", "noup", "junk", "none", "cut"} ELSE {"good", "junk", "none", "cut"}) :
              /\ (st = 0 => b = "none")
              /\ Answer(st, b)
              /\ H([op |-> "ans", st |-> st, body |-> b])
GClose == open > 0 /\ stage \in {"done", "fail"} /\ Close /\ UNCHANGED <<hist, n>>
GRpc == /\ stage = "rpc" /\ UNCHANGED n
        /\ \/ ~call.dead /\ \E ok \in BOOLEAN : Rpc("r", ok) /\ H([op |-> "rpc", ok |-> ok])
           \/ RpcLost /\ UNCHANGED hist
GReturn == \E e \in BOOLEAN : Return(e) /\ UNCHANGED <<hist, n>>
GNext == GCall \/ GAsk \/ GAnswer \/ GClose \/ GRpc \/ GReturn
GSpec == GInit /\ [][GNext]_gvars
Emit == (Emitting /\ n = MaxCalls /\ stage' = "idle") => PrintT("SCN " \o ToJson(hist))

(* A versioned endpoint is asked under a base that was found out. *)
BaseKnown == stage = "main" /\ call.m \in Versioned => base \in {"/v1", "/api/v1"}
Bounded == open <= 2
===============================================================================
