------------------------------- MODULE Ingress --------------------------------
(* One node's routing of ingress requests.  Envelopes are numbers, in the order *)
(* of their batch.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE out   \* request -> [only, here, want: node -> envelopes to come, failed, done]
ivars == <<out>>
IInit == out = [x \in {} |-> 0]

(* batch: sequence of [id, src]; route: source -> set of nodes. *)
RECURSIVE For(_, _, _)
For(batch, route, n) == IF batch = <<>> THEN <<>>
                        ELSE (IF n \in route[Head(batch).src] THEN <<Head(batch).id>> ELSE <<>>) \o For(Tail(batch), route, n)
Ids(batch) == [k \in DOMAIN batch |-> batch[k].id]

Start(i, batch, route, nodes, here, only) ==
    /\ i \notin DOMAIN out
    /\ out' = (i :> [only |-> only, here |-> here, failed |-> {}, sent |-> {}, res |-> "ok",
                     want |-> IF only THEN [n \in {here} |-> Ids(batch)] ELSE [n \in nodes |-> For(batch, route, n)]]) @@ out

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* Node n is sent ids; marked: with the mark that keeps it from routing them again. *)
Deliver(i, n, ids, marked, res) ==
    /\ i \in DOMAIN out /\ marked
    /\ n \in DOMAIN out[i].want /\ Prefix(ids, out[i].want[n])
    /\ IF out[i].only THEN ids = out[i].want[n] /\ n \notin out[i].sent ELSE ids # <<>>
    /\ out' = [out EXCEPT ![i].want[n] = SubSeq(@, Len(ids) + 1, Len(@)),
                          ![i].sent = @ \cup {n},
                          ![i].failed = IF res = "ok" THEN @ ELSE @ \cup {n},
                          ![i].res = IF out[i].only THEN res ELSE "ok"]
Finished(i) == /\ \A n \in DOMAIN out[i].want : out[i].want[n] = <<>> \/ n \in out[i].failed
               /\ out[i].only => out[i].sent = {out[i].here}
End(i, res) == /\ i \in DOMAIN out /\ Finished(i) /\ res = out[i].res
               /\ out' = [x \in DOMAIN out \ {i} |-> out[x]]
===============================================================================
