-------------------------------- MODULE Egress --------------------------------
(* One node's routing of reads and its cached view of the cluster's meta.       *)
(* Times are milliseconds.  Meta is a set of [src, v].                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    cur,   \* the request in flight
    kept   \* kind of request -> set of [val, at]: what was fetched so far
evars == <<cur, kept>>

Idle == [op |-> "idle"]
EInit == cur = Idle /\ kept = [only |-> {}, all |-> {}]

(* ---- reads ---- *)
ReadStart(owners) == /\ cur.op = "idle" /\ cur' = [op |-> "read", owners |-> owners, asked |-> FALSE, res |-> "unavailable"]
                     /\ UNCHANGED kept
ReadAsk(n, here, res) == /\ cur.op = "read" /\ ~cur.asked /\ n \in cur.owners
                         /\ (here \in cur.owners => n = here)
                         /\ cur' = [cur EXCEPT !.asked = TRUE, !.res = res]
                         /\ UNCHANGED kept
ReadEnd(res) == /\ cur.op = "read" /\ (cur.owners # {} => cur.asked) /\ res = cur.res
                /\ cur' = Idle /\ UNCHANGED kept

(* ---- meta ---- *)
MetaStart(only, t) == /\ cur.op = "idle" /\ cur' = [op |-> "meta", only |-> only, t |-> t, asked |-> {}, vals |-> {}]
                      /\ UNCHANGED kept
(* vals collects what the reachable nodes answered *)
MetaAsk(n, ok, val) == /\ cur.op = "meta" /\ n \notin cur.asked
                       /\ cur' = [cur EXCEPT !.asked = @ \cup {n}, !.vals = IF ok THEN @ \cup {[n |-> n, val |-> val]} ELSE @]
                       /\ UNCHANGED kept
KeysOf(m) == {p.src : p \in m}
All(vals) == UNION {x.val : x \in vals}
IsUnion(m, vals) == /\ m \subseteq All(vals) /\ KeysOf(m) = KeysOf(All(vals))
                    /\ Cardinality(m) = Cardinality(KeysOf(m))
Kind == IF cur.only THEN "only" ELSE "all"
Targets(nodes, here) == IF cur.only THEN {here} ELSE nodes
MetaFetched(m, t, nodes, here) == /\ cur.op = "meta" /\ cur.asked = Targets(nodes, here) /\ cur.vals # {}
                                  /\ IsUnion(m, cur.vals)
                                  /\ kept' = [kept EXCEPT ![Kind] = @ \cup {[val |-> m, at |-> t]}]
                                  /\ cur' = Idle
MetaCached(m, period) == /\ cur.op = "meta" /\ cur.asked = {}
                         /\ \E k \in kept[Kind] : k.val = m /\ cur.t <= k.at + period
                         /\ cur' = Idle /\ UNCHANGED kept
MetaFailed(nodes, here) == /\ cur.op = "meta" /\ cur.asked = Targets(nodes, here) /\ cur.vals = {}
                           /\ cur' = Idle /\ UNCHANGED kept
===============================================================================
