------------------------------- MODULE Blackbox -------------------------------
(* The reliability probe: emission of test metrics, measurement, reporting.     *)
(* Times of emissions are counted in emission intervals.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Attempts == 5            \* how often one emission is tried
TooYoung == 600          \* seconds of uptime

VARIABLES
    last,     \* time of the latest emission, -1 before the first
    tries,    \* failed attempts at it; 0 if it got through or was given up
    n,        \* emissions
    stage,    \* of the measurement: idle; path measured next; report; sent
    vals      \* what was measured: a function from metric names
bvars == <<last, tries, n, stage, vals>>
BInit == last = -1 /\ tries = 0 /\ n = 0 /\ stage = "idle" /\ vals = <<>>

(* ---- emission: now is the time it is sent at; both in intervals *)
Send(t, now, ok) ==
    /\ UNCHANGED <<stage, vals>>
    /\ t <= now /\ now - t <= 5
    /\ \/ tries = 0 /\ t >= last /\ n' = n + 1
       \/ tries > 0 /\ t = last /\ UNCHANGED n
    /\ last' = t
    /\ tries' = IF ok \/ tries + 1 = Attempts THEN 0 ELSE tries + 1

(* After a while: nearly one emission per interval. *)
Enough(elapsed) == 2 * n >= elapsed - 4 /\ n <= elapsed + 2 /\ UNCHANGED bvars

(* ---- measurement of one path: one query; its answer; its result *)
Outcomes == {"series", "empty", "error", "notmatrix"}
(* early: how much later the query's time is than it should be at least; late: ... at most (milliseconds) *)
Query(text, want, aligned, early, late, sample) ==
    /\ stage = "idle" /\ text = want /\ aligned /\ early < sample /\ late >= 0
    /\ stage' = "asked" /\ UNCHANGED <<last, tries, n, vals>>
QueryAnswer(kind, points) ==
    /\ stage = "asked" /\ stage' = "answered"
    /\ vals' = [ok |-> kind = "series", points |-> points] /\ UNCHANGED <<last, tries, n>>
(* The result is points / expected. *)
Result(ok, num) == /\ stage = "answered" /\ ok = vals.ok /\ (ok => num = vals.points)
                   /\ stage' = "idle" /\ vals' = <<>> /\ UNCHANGED <<last, tries, n>>

(* ---- reporting: metrics is what was measured; http: there is a path to ask for the uptime by *)
Publish(metrics, http) ==
    /\ stage = "idle" /\ vals' = metrics
    /\ stage' = (IF Len(metrics) = 0 THEN "done" ELSE IF http THEN "uptime" ELSE "send") /\ UNCHANGED <<last, tries, n>>
Uptime(known, secs) == /\ stage = "uptime"
                       /\ stage' = (IF known /\ secs >= 0 /\ secs < TooYoung THEN "done" ELSE "send") /\ UNCHANGED <<last, tries, n, vals>>
SendReport(metrics) == stage = "send" /\ metrics = vals /\ stage' = "done" /\ UNCHANGED <<last, tries, n, vals>>
Reported == stage = "done" /\ stage' = "idle" /\ vals' = <<>> /\ UNCHANGED <<last, tries, n>>
===============================================================================
