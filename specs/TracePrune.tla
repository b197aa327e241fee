------------------------------ MODULE TracePrune ------------------------------
EXTENDS Prune, TraceKit
tvars == <<ep, l>>
TInit == KInit
(* The answer and the figure shown both follow from one reading of the memory. *)
TDecide == /\ Step("decide")
           /\ \E r \in Range(Ev.reads) : /\ Asked(Ev.q, r.h, r.t, Cfg.lim, Ev.n)
                                         /\ IF Cfg.shown THEN Len(Ev.shown) = 1 /\ Shown(Ev.shown[1], r.h, r.t)
                                            ELSE Ev.shown = <<>>
(* The analyzer answers with the machine's memory and the heap in use, and shows the same. *)
TMemory == /\ Step("memory")
           /\ Ev.heap = Ev.gheap /\ Ev.avail = Ev.gavail /\ Ev.total = Ev.gtotal
           /\ Ev.total = Ev.machine /\ Ev.lo <= Ev.heapkb /\ Ev.heapkb <= Ev.hi
           /\ Ev.availmb > 0 /\ Ev.availmb <= Ev.totalmb
TNext == TDecide \/ TMemory
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
