------------------------------- MODULE GenPrune -------------------------------
EXTENDS Prune, Json
CONSTANTS Heaps, Totals, Limits, Counts, Steps, Emitting
VARIABLES lim, hist
gvars == <<lim, hist>>
GInit == lim \in Limits /\ hist = <<>>
Decide == /\ Len(hist) < Steps
          /\ \E h \in Heaps, t \in Totals, n \in Counts :
                /\ h <= t
                /\ hist' = Append(hist, [h |-> h, t |-> t, n |-> n, lim |-> lim])
          /\ UNCHANGED lim
GSpec == GInit /\ [][Decide]_gvars
(* Never more than there are; what stays is at least the limit's worth, and less than one entry over it. *)
Fits == \A i \in DOMAIN hist :
           LET d == hist[i]
               q == Quantity(d.h, d.t, d.lim, d.n)
           IN /\ 0 <= q /\ q <= d.n
              /\ Over(d.h, d.t, d.lim) => /\ 1000 * d.h * (d.n - q) >= d.lim * d.t * d.n
                                          /\ 1000 * d.h * (d.n - q) - d.lim * d.t * d.n < 1000 * d.h
              /\ ~Over(d.h, d.t, d.lim) => q = 0
Emit == (Emitting /\ Len(hist') = Steps) => PrintT("SCN " \o ToJson(hist'))
===============================================================================
