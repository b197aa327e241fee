--------------------------- MODULE TraceBlackboxLoop --------------------------
(* The built program against fake servers.  Test emissions run beside the loop. *)
EXTENDS TraceKit, FiniteSets
VARIABLES pc, got, sent, rounds, last, tries, n, stage, vals
LT == INSTANCE BlackboxLoop WITH Enabled <- TRUE, Expected <- 1
LF == INSTANCE BlackboxLoop WITH Enabled <- FALSE, Expected <- 1
B == INSTANCE Blackbox
lv == <<pc, got, sent, rounds>>
bv == <<last, tries, n, stage, vals>>
tvars == <<pc, got, sent, rounds, last, tries, n, stage, vals, ep, l>>
TInit == KInit /\ LT!LInit /\ B!BInit
TMeasure == Step("measure") /\ Ev.text = Cfg.text /\ (IF Cfg.enabled THEN LT!Measure(Ev.path, Ev.ok, Ev.points) ELSE LF!Measure(Ev.path, Ev.ok, Ev.points)) /\ UNCHANGED bv
TUptime  == Step("uptime") /\ (IF Cfg.enabled THEN LT!AskUptime(Ev.known, Ev.secs) ELSE LF!AskUptime(Ev.known, Ev.secs)) /\ UNCHANGED bv
TReport  == Step("sendreport") /\ Ev.proper /\ (IF Cfg.enabled THEN LT!ReportAll(Ev.metrics) ELSE LF!ReportAll(Ev.metrics)) /\ UNCHANGED bv
TRound   == Silent /\ (IF Cfg.enabled THEN LT!NextRound ELSE LF!NextRound) /\ UNCHANGED bv
TSend    == Step("send") /\ Ev.proper /\ Ev.aligned /\ B!Send(Ev.t, Ev.now, Ev.ok) /\ UNCHANGED lv
(* At the end it still runs, and has gone through the rounds there was time for. *)
TEnd     == Step("stop") /\ Ev.running /\ rounds >= Ev.rounds /\ B!Enough(Ev.intervals) /\ UNCHANGED lv
TNext == TMeasure \/ TUptime \/ TReport \/ TRound \/ TSend \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
