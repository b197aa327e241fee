---------------------------- MODULE TraceBlackbox -----------------------------
EXTENDS Blackbox, TraceKit
tvars == <<last, tries, n, stage, vals, ep, l>>
TInit == KInit /\ BInit
(* sent: the batch is one gauge with the test metric; dl: the attempt cannot hang for ever *)
TSend   == Step("send") /\ Ev.proper /\ Ev.aligned /\ Ev.dl /\ Send(Ev.t, Ev.now, Ev.ok)
TEnd    == Step("elapsed") /\ Enough(Ev.intervals)
TQuery  == Step("query") /\ Ev.dl /\ Query(Ev.text, Cfg.text, Ev.aligned, Ev.early, Ev.late, Cfg.sample)
TQA     == Step("qanswer") /\ QueryAnswer(Ev.kind, Ev.points)
TResult == Step("result") /\ Result(Ev.ok, Ev.num)
TReport == Step("report") /\ Publish(Ev.metrics, Ev.http)
TUptime == Step("uptime") /\ Uptime(Ev.known, Ev.secs)
TSendR  == Step("sendreport") /\ Ev.proper /\ Ev.dl /\ SendReport(Ev.metrics)
TDone   == Step("reported") /\ Reported
TNext == TSend \/ TEnd \/ TQuery \/ TQA \/ TResult \/ TReport \/ TUptime \/ TSendR \/ TDone
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
