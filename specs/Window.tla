-------------------------------- MODULE Window --------------------------------
(* The window algorithm: walk [start, start + width), hand the result over,     *)
(* advance by the interval whether or not there was data, until told to stop.   *)
EXTENDS Integers, Sequences, TLC
VARIABLES wc, k, wph, got
winvars == <<wc, k, wph, got>>

WinInit(c) == wc = c /\ k = 0 /\ wph = "walk" /\ got = <<>>
WinWalk(off, span, es) ==
    /\ wph = "walk" /\ off = k * wc.interval /\ span = wc.width
    /\ got' = es /\ wph' = "visit" /\ UNCHANGED <<wc, k>>
WinVisit(es, ret) ==
    /\ wph = "visit" /\ es = got
    /\ k' = k + 1 /\ wph' = (IF ret THEN "walk" ELSE "done") /\ UNCHANGED <<wc, got>>
WinDone == wph = "done" /\ wph' = "over" /\ UNCHANGED <<wc, k, got>>
===============================================================================
