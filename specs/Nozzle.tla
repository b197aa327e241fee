-------------------------------- MODULE Nozzle --------------------------------
(* The nozzle between a stream of envelopes, numbered as they arrive, and the   *)
(* cache.  Batches overtake each other; within a batch the order is kept.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    come,    \* how many envelopes the stream brought
    gone,    \* intervals of envelopes that left in batches: set of [lo, hi]
    ok, bad, \* batches delivered (in envelopes), sends failed
    open     \* batches being sent: id -> size
nvars == <<come, gone, ok, bad, open>>
NInit == come = 0 /\ gone = {} /\ ok = 0 /\ bad = 0 /\ open = [x \in {} |-> 0]

Arrive(n) == come' = come + n /\ UNCHANGED <<gone, ok, bad, open>>
(* runs: sequence of [lo, hi] of consecutive envelopes *)
RECURSIVE Rising(_, _)
Rising(runs, k) == IF runs = <<>> THEN TRUE
                   ELSE Head(runs).lo > k /\ Head(runs).hi >= Head(runs).lo /\ Rising(Tail(runs), Head(runs).hi)
RECURSIVE Total(_)
Total(runs) == IF runs = <<>> THEN 0 ELSE Head(runs).hi - Head(runs).lo + 1 + Total(Tail(runs))
Fresh(r) == r.hi <= come /\ ~\E g \in gone : ~(r.hi < g.lo) /\ ~(g.hi < r.lo)
(* adjacent intervals are kept joined *)
Join(g, r) == LET n == {x \in g : x.hi + 1 = r.lo}
                  m == {x \in g : x.lo - 1 = r.hi}
              IN (g \ (n \cup m)) \cup {[lo |-> IF n = {} THEN r.lo ELSE (CHOOSE x \in n : TRUE).lo,
                                        hi |-> IF m = {} THEN r.hi ELSE (CHOOSE x \in m : TRUE).hi]}
RECURSIVE Fold(_, _)
Fold(g, runs) == IF runs = <<>> THEN g ELSE Fold(Join(g, Head(runs)), Tail(runs))
Send(i, runs, max) == /\ runs # <<>> /\ Rising(runs, 0) /\ Total(runs) <= max
                      /\ \A k \in DOMAIN runs : Fresh(runs[k])
                      /\ gone' = Fold(gone, runs)
                      /\ i \notin DOMAIN open /\ open' = (i :> Total(runs)) @@ open
                      /\ UNCHANGED <<come, ok, bad>>
Sent(i, good) == /\ i \in DOMAIN open /\ open' = [x \in DOMAIN open \ {i} |-> open[x]]
                 /\ IF good THEN ok' = ok + open[i] /\ UNCHANGED bad ELSE bad' = bad + 1 /\ UNCHANGED ok
                 /\ UNCHANGED <<come, gone>>
RECURSIVE Width(_)
Width(s) == IF s = {} THEN 0 ELSE LET g == CHOOSE g \in s : TRUE IN g.hi - g.lo + 1 + Width(s \ {g})
(* Nothing is under way: all has left (unless a buffer overflowed) and the counters say so. *)
Quiet(ingress, egress, err, lossy) == /\ open = [x \in {} |-> 0]
                                      /\ IF lossy THEN TRUE ELSE Width(gone) = come
                                      /\ ingress = come /\ egress = ok /\ err = bad
Once == \A g, h \in gone : g = h \/ g.hi < h.lo \/ h.hi < g.lo
===============================================================================
