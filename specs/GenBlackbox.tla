------------------------------ MODULE GenBlackbox -----------------------------
EXTENDS Blackbox, Json
CONSTANTS Emitting, MaxSends
VARIABLES hist, k
gvars == <<last, tries, n, stage, vals, hist, k>>
H(r) == hist' = IF Emitting THEN Append(hist, r) ELSE hist
GInit == BInit /\ hist = <<>> /\ k = 0
Fresh == k = 0
(* Emission: which attempts fail.  Time moves on between emissions. *)
GSend == /\ stage = "idle" /\ (hist # <<>> => hist[1].op = "send")
         /\ k < MaxSends /\ k' = k + 1
         /\ \E ok \in BOOLEAN : Send(IF tries = 0 THEN last + 1 ELSE last, last + 1, ok) /\ H([op |-> "send", ok |-> ok])
GMeasure == /\ Fresh /\ \E kind \in Outcomes, pts \in {0, 1, 2, 3} :
               /\ stage = "idle" /\ (kind # "series" => pts = 0)
               /\ stage' = "answered" /\ vals' = [ok |-> kind = "series", points |-> pts] /\ UNCHANGED <<last, tries, n>>
               /\ k' = 1 /\ H([op |-> "calc", kind |-> kind, points |-> pts])
GResult == stage = "answered" /\ Result(vals.ok, vals.points) /\ k' = MaxSends /\ UNCHANGED hist
GReport == /\ Fresh /\ \E m \in 0..3, http \in BOOLEAN : Publish([i \in 1..m |-> i], http) /\ k' = 1 /\ H([op |-> "report", m |-> m, http |-> http])
GUptime == \E known \in BOOLEAN, s \in {0, 1, 599, 600, 601, 100000} : Uptime(known, s) /\ (~known => s = 0) /\ k' = k /\ H([op |-> "uptime", known |-> known, secs |-> s])
GSendRep == \E ok \in BOOLEAN : SendReport(vals) /\ k' = k /\ H([op |-> "sendreport", ok |-> ok])
GReported == Reported /\ k' = MaxSends /\ UNCHANGED hist
GNext == GSend \/ GMeasure \/ GResult \/ GReport \/ GUptime \/ GSendRep \/ GReported
GSpec == GInit /\ [][GNext]_gvars
Emit == (Emitting /\ stage' = "idle" /\ k' = MaxSends /\ k # k') => PrintT("SCN " \o ToJson(hist'))
TriesOk == tries < Attempts
===============================================================================
