---------------------------- MODULE RoutingTable ------------------------------
(* The table of hash ranges of a node, replaced as a whole and looked up        *)
(* concurrently.  Hashes and bounds are ranks of a sorted table of 64-bit       *)
(* numbers.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    table,   \* set of [node, lo, hi]
    pend     \* call -> [kind "lookup": h, seen: set of the answers possible so far; kind "set": t, done]
rvars == <<table, pend>>

None == [x \in {} |-> 0]
Owners(t, h) == {r.node : r \in {r \in t : r.lo <= h /\ h <= r.hi}}

RInit == table = {} /\ pend = None
Put(i, r) == pend' = (i :> r) @@ pend
Drop(i) == pend' = [x \in DOMAIN pend \ {i} |-> pend[x]]

LookupStart(i, h) == i \notin DOMAIN pend /\ Put(i, [kind |-> "lookup", h |-> h, seen |-> {Owners(table, h)}]) /\ UNCHANGED table
LookupEnd(i, res) == /\ i \in DOMAIN pend /\ pend[i].kind = "lookup" /\ res \in pend[i].seen
                     /\ Drop(i) /\ UNCHANGED table
SetStart(i, t) == i \notin DOMAIN pend /\ Put(i, [kind |-> "set", t |-> t, done |-> FALSE]) /\ UNCHANGED table
(* The moment the new table takes effect, some time during the call. *)
Take(i) == /\ pend[i].kind = "set" /\ ~pend[i].done
           /\ table' = pend[i].t
           /\ pend' = [x \in DOMAIN pend |->
                         IF x = i THEN [pend[x] EXCEPT !.done = TRUE]
                         ELSE IF pend[x].kind = "lookup" THEN [pend[x] EXCEPT !.seen = @ \cup {Owners(table', pend[x].h)}]
                         ELSE pend[x]]
SetEnd(i) == i \in DOMAIN pend /\ pend[i].kind = "set" /\ pend[i].done /\ Drop(i) /\ UNCHANGED table

(* A lookup that overlaps no set has exactly one answer. *)
Settled == \A i \in DOMAIN pend : pend[i].kind = "lookup" => pend[i].seen # {}

-------------------------------------------------------------------------------
(* The static table of n routes.  64-bit numbers are four limbs to the base     *)
(* 2^16, least significant first.                                               *)
Base == 65536
Zeros == <<0, 0, 0, 0, 0>>
RECURSIVE DivStep(_, _, _, _)
DivStep(a, n, k, rem) == IF k = 0 THEN <<>>
                         ELSE LET v == rem * Base + a[k] IN Append(DivStep(a, n, k - 1, v % n), v \div n)
(* a div n, for n < 2^15 *)
Div(a, n) == IF n = 1 THEN a ELSE DivStep(a, n, 4, 0)
RECURSIVE MulStep(_, _, _, _)
MulStep(a, m, k, carry) == IF k > 4 THEN <<carry>>
                           ELSE LET v == a[k] * m + carry IN <<v % Base>> \o MulStep(a, m, k + 1, v \div Base)
(* a * m, five limbs, for m < 2^15 *)
Mul(a, m) == MulStep(a, m, 1, 0)
RECURSIVE LessStep(_, _, _)
LessStep(a, b, k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LessStep(a, b, k - 1)
Less(a, b) == LessStep(a, b, 5)
Five(a) == Append(a, 0)
MaxHash == <<65535, 65535, 65535, 65535>>
(* Route i of n holds hash h: routes are equally wide, the last takes the rest. *)
Static(n, h, i) == LET x == Div(MaxHash, n)
                   IN /\ i \in 0..(n - 1)
                      /\ ~Less(Five(h), Mul(x, i))
                      /\ i < n - 1 => Less(Five(h), Mul(x, i + 1))
===============================================================================
