--------------------------- MODULE TraceLocalReader ---------------------------
EXTENDS LocalReader, TraceKit
tvars == <<ep, l>>
TInit == KInit
(* calls: how often the store was asked; a: what for; same: the answer holds what the store returned *)
TRead == /\ Step("read")
         /\ IF Refused(Ev.q) THEN Ev.err /\ Ev.calls = 0
            ELSE /\ ~Ev.err /\ Ev.calls = 1 /\ Ev.same
                 /\ [Ev.a EXCEPT !.kinds = Range(@)] = Asked(Ev.q)
(* kept, got: meta of the store, meta answered; own: no two sources share one record *)
TMeta == Step("meta") /\ ~Ev.err /\ Ev.got = Ev.kept /\ Ev.own
TNext == TRead \/ TMeta
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
