------------------------------ MODULE GenIngress ------------------------------
(* All requests of up to MaxB envelopes over two sources, all routes, all       *)
(* failing nodes; deliveries in any order and any split.                        *)
EXTENDS Ingress, Json
CONSTANTS Nodes, MaxB, Emitting
VARIABLES scn, got, fails
gvars == <<out, scn, got, fails>>
Srcs == {"a", "b"}
GInit == IInit /\ scn = [op |-> "none"] /\ got = [n \in Nodes |-> <<>>] /\ fails = {}
Batches == UNION {[1..k -> Srcs] : k \in 0..MaxB}
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetSeq(s \ {x})
GStart == /\ scn.op = "none"
          /\ \E b \in Batches, ra \in SUBSET Nodes, rb \in SUBSET Nodes, f \in SUBSET Nodes, o \in BOOLEAN :
               /\ Start(1, [k \in DOMAIN b |-> [id |-> k, src |-> b[k]]], [s \in Srcs |-> IF s = "a" THEN ra ELSE rb], Nodes, 0, o)
               /\ fails' = f
               /\ scn' = [op |-> "send", batch |-> b, a |-> SetSeq(ra), b |-> SetSeq(rb), fail |-> SetSeq(f), only |-> o]
          /\ UNCHANGED got
GDeliver == /\ ~Emitting /\ 1 \in DOMAIN out /\ UNCHANGED <<scn, fails>>
            /\ \E n \in DOMAIN out[1].want : \E k \in 0..Len(out[1].want[n]) :
                 /\ Deliver(1, n, SubSeq(out[1].want[n], 1, k), TRUE, IF n \in fails THEN "err" ELSE "ok")
                 /\ got' = [got EXCEPT ![n] = @ \o SubSeq(out[1].want[n], 1, k)]
GEnd == ~Emitting /\ 1 \in DOMAIN out /\ End(1, out[1].res) /\ UNCHANGED <<scn, got, fails>>
GNext == GStart \/ GDeliver \/ GEnd
GSpec == GInit /\ [][GNext]_gvars
Elems(s) == {s[k] : k \in DOMAIN s}
(* Once answered, every node that did not fail has exactly the envelopes of the sources it owns. *)
Exact == (scn.op = "send" /\ 1 \notin DOMAIN out) =>
          \A n \in Nodes \ fails :
             Elems(got[n]) = IF scn.only THEN (IF n = 0 THEN DOMAIN scn.batch ELSE {})
                             ELSE {k \in DOMAIN scn.batch : n \in Elems(IF scn.batch[k] = "a" THEN scn.a ELSE scn.b)}
Ordered == \A n \in Nodes : \A j, k \in DOMAIN got[n] : j < k => got[n][j] < got[n][k]
Emit == (Emitting /\ scn'.op = "send") => PrintT("SCN " \o ToJson(<<scn'>>))
===============================================================================
