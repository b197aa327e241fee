------------------------------- MODULE GenNozzle ------------------------------
(* The nozzle's buffer, batcher and workers, step by step: Max envelopes fill a *)
(* batch, a tick flushes what is there, at most Queue batches wait, and what    *)
(* does not fit is discarded whole.                                             *)
EXTENDS Nozzle
CONSTANTS N, Max, Queue, Workers
VARIABLES fill, queue, lost, nb, cin, cout, cerr
gvars == <<come, gone, ok, bad, open, fill, queue, lost, nb, cin, cout, cerr>>
GInit == NInit /\ fill = <<>> /\ queue = <<>> /\ lost = FALSE /\ nb = 0 /\ cin = 0 /\ cout = 0 /\ cerr = 0
Runs(s) == [k \in DOMAIN s |-> [lo |-> s[k], hi |-> s[k]]]
GArrive == /\ come < N /\ Len(fill) < Max /\ Arrive(1) /\ fill' = Append(fill, come + 1) /\ cin' = cin + 1
           /\ UNCHANGED <<queue, lost, nb, cout, cerr>>
GFlush == /\ fill # <<>> /\ fill' = <<>>
          /\ IF Len(queue) < Queue THEN queue' = Append(queue, fill) /\ UNCHANGED lost ELSE lost' = TRUE /\ UNCHANGED queue
          /\ UNCHANGED <<come, gone, ok, bad, open, nb, cin, cout, cerr>>
GSend == /\ queue # <<>> /\ Cardinality(DOMAIN open) < Workers /\ nb' = nb + 1
         /\ Send(nb + 1, Runs(Head(queue)), Max) /\ queue' = Tail(queue)
         /\ UNCHANGED <<fill, lost, cin, cout, cerr>>
GSent == \E i \in DOMAIN open, g \in BOOLEAN : /\ Sent(i, g) /\ cout' = (IF g THEN cout + open[i] ELSE cout) /\ cerr' = (IF g THEN cerr ELSE cerr + 1)
                                              /\ UNCHANGED <<fill, queue, lost, nb, cin>>
GNext == GArrive \/ GFlush \/ GSend \/ GSent
GSpec == GInit /\ [][GNext]_gvars
Settles == (~ENABLED GNext) => Quiet(cin, cout, cerr, lost)
===============================================================================
