------------------------------- MODULE Batcher --------------------------------
(* The forwarder of one peer: envelopes of several producers enter a buffer and *)
(* leave it in batches.  Envelope k of producer p is the k-th it put.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    put,     \* producer -> how many it has put
    last,    \* producer -> the last one that was sent on
    sent,    \* how many were sent on
    dropped  \* how many were counted as dropped
bvars == <<put, last, sent, dropped>>
Get(f, p) == IF p \in DOMAIN f THEN f[p] ELSE 0
RECURSIVE Sum(_)
Sum(f) == IF DOMAIN f = {} THEN 0 ELSE LET x == CHOOSE x \in DOMAIN f : TRUE
                                      IN f[x] + Sum([y \in DOMAIN f \ {x} |-> f[y]])
BInit == put = [x \in {} |-> 0] /\ last = [x \in {} |-> 0] /\ sent = 0 /\ dropped = 0

Put(p, n) == put' = (p :> Get(put, p) + n) @@ put /\ UNCHANGED <<last, sent, dropped>>
(* A batch is a sequence of runs [p, lo, hi] of consecutive envelopes. *)
RECURSIVE After(_, _), Fits(_, _)
After(runs, f) == IF runs = <<>> THEN f ELSE After(Tail(runs), (Head(runs).p :> Head(runs).hi) @@ f)
Fits(runs, f) == runs # <<>> => LET r == Head(runs)
                                IN /\ Get(f, r.p) < r.lo /\ r.lo <= r.hi /\ r.hi <= Get(put, r.p)
                                   /\ Fits(Tail(runs), (r.p :> r.hi) @@ f)
RECURSIVE Size(_)
Size(runs) == IF runs = <<>> THEN 0 ELSE Head(runs).hi - Head(runs).lo + 1 + Size(Tail(runs))
Batch(runs, max) == /\ Size(runs) \in 1..max
                    /\ Fits(runs, last) /\ last' = After(runs, last)
                    /\ sent' = sent + Size(runs)
                    /\ UNCHANGED <<put, dropped>>
Drop(n) == n > 0 /\ dropped' = dropped + n /\ UNCHANGED <<put, last, sent>>
(* Nothing is on its way any more. *)
Drained == sent + dropped = Sum(put)
NoneTwice == sent + dropped <= Sum(put)
===============================================================================
