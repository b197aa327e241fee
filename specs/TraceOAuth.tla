------------------------------ MODULE TraceOAuth ------------------------------
EXTENDS OAuth, TraceKit
tvars == <<tok, fetching, calls, bad, ep, l>>
TInit == KInit /\ OInit

TStart  == Step("do") /\ Start(Ev.i, Ev.pre)
TTake   == Silent /\ \E i \in DOMAIN calls : Take(i)
(* good: the request is a well-formed request for the configured grant *)
TFetch  == Step("tokreq") /\ Ev.good /\ \E i \in DOMAIN calls : Fetch(i)
TFetched == Step("tokresp") /\ IF Ev.tok = "" THEN NotFetched ELSE Fetched(Ev.tok)
TSend   == Step("apireq") /\ Send(Ev.i, Ev.auth) /\ Ev.intact /\ (calls[Ev.i].st = "pre" => Ev.auth = "P")
TAnswer == Step("apiresp") /\ IF Ev.status = 0 THEN NoAnswer(Ev.i) ELSE Answer(Ev.i, Ev.status >= 200 /\ Ev.status < 300)
TClear  == Silent /\ \E i \in DOMAIN calls : Clear(i)
(* same: the answer is the one the server gave; closed: token answers were closed *)
TReturn == Step("ret") /\ Return(Ev.i, Ev.err) /\ Ev.same /\ Ev.closed

TNext == TStart \/ TTake \/ TFetch \/ TFetched \/ TSend \/ TAnswer \/ TClear \/ TReturn
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
