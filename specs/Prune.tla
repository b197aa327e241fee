-------------------------------- MODULE Prune ---------------------------------
(* How many entries the memory limit asks to prune.  h of t units of memory are *)
(* heap; lim is the limit in tenths of a percent.  All exact.                   *)
EXTENDS Integers, Sequences, TLC

Over(h, t, lim) == 1000 * h > lim * t
(* The share of the heap above the limit, of the entries, rounded down. *)
Quantity(h, t, lim, n) == IF Over(h, t, lim) THEN (n * (1000 * h - lim * t)) \div (1000 * h) ELSE 0
Even(h, t, lim, n) == Over(h, t, lim) /\ (n * (1000 * h - lim * t)) % (1000 * h) = 0
(* Floating point may fall short of a whole number. *)
Asked(q, h, t, lim, n) == q = Quantity(h, t, lim, n) \/ (Even(h, t, lim, n) /\ q > -1 /\ q = Quantity(h, t, lim, n) - 1)
(* The utilization in thousandths of a percent. *)
Used(h, t) == (100000 * h) \div t
Shown(u, h, t) == u - Used(h, t) \in -1..1
===============================================================================
