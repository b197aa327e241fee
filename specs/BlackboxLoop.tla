----------------------------- MODULE BlackboxLoop -----------------------------
(* The program: each sample measures the gRPC path, then, if enabled, the HTTP  *)
(* path, then reports what could be measured.  points is 0 or more, expected    *)
(* the number of emissions in a window.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enabled, Expected
VARIABLES pc, got, sent, rounds
lvars == <<pc, got, sent, rounds>>
LInit == pc = "start" /\ got = <<>> /\ sent = FALSE /\ rounds = 0

Measure(path, ok, points) ==
    /\ \/ pc = "start" /\ path = "grpc"
       \/ pc = "http" /\ path = "http"
    /\ got' = IF ok THEN Append(got, [name |-> "blackbox." \o path \o "_reliability", points |-> points]) ELSE got
    /\ pc' = IF path = "grpc" /\ Enabled THEN "http"
             ELSE IF got' = <<>> THEN "end"
             ELSE IF Enabled THEN "uptime" ELSE "report"
    /\ UNCHANGED <<sent, rounds>>
AskUptime(known, secs) == /\ pc = "uptime" /\ UNCHANGED <<got, sent, rounds>>
                          /\ pc' = IF known /\ secs < 600 THEN "end" ELSE "report"
ReportAll(ms) == pc = "report" /\ ms = got /\ pc' = "end" /\ sent' = TRUE /\ UNCHANGED <<got, rounds>>
NextRound == pc = "end" /\ pc' = "start" /\ got' = <<>> /\ sent' = FALSE /\ rounds' = rounds + 1
LNext == \/ \E p \in {"grpc", "http"}, ok \in BOOLEAN, k \in {0, 1, Expected} : Measure(p, ok, k)
         \/ \E known \in BOOLEAN, s \in {0, 599, 600} : AskUptime(known, s)
         \/ ReportAll(got) \/ (NextRound /\ rounds < 3)
LSpec == LInit /\ [][LNext]_lvars /\ WF_lvars(LNext)
(* Nothing is reported for a path that could not be measured, and nothing at all without a measurement. *)
Honest == sent => got # <<>>
KeepsOn == <>(rounds = 3)
===============================================================================
