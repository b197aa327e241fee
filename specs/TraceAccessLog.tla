---------------------------- MODULE TraceAccessLog ----------------------------
EXTENDS AccessLog, TraceKit
tvars == <<open, logged, served, ep, l>>
TInit == KInit /\ AInit
TCome   == Step("come") /\ Come(Ev.i, Ev.r)
(* rt is the time in the line, late how long after the request's arrival that is, in milliseconds. *)
TLine   == Step("line") /\ \E i \in DOMAIN open : Ev.text = Line(open[i], Ev.rt, Cfg.host, Cfg.port) /\ Log(i)
           /\ Ev.now
TServe  == Step("serve") /\ Ev.same /\ Serve(Ev.i)
TAnswer == Step("answer") /\ Ev.proper /\ Answer(Ev.i, Ev.refused)
TEnd    == Step("end") /\ Quiet /\ Ev.rest = "" /\ UNCHANGED avars
TNext == TCome \/ TLine \/ TServe \/ TAnswer \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
