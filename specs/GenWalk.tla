-------------------------------- MODULE GenWalk -------------------------------
(* Every walk of up to MaxReads reads over a small world.                       *)
EXTENDS Walk, Json
CONSTANTS Ts, Ends, MaxReads, Emitting
VARIABLES reads, hist, seen
gvars == <<conf, cur, rempty, cnt, ph, batch, reads, hist, seen>>
(* What kinds of things have happened so far keeps histories apart that lead to the same state. *)
Kinds == {<<hist[i].op, IF hist[i].op = "read" THEN hist[i].err ELSE FALSE>> : i \in 2..Len(hist)}
View == <<conf, cur, rempty, ph, batch, reads, seen, Kinds, [i \in DOMAIN hist |-> IF hist[i].op = "read" THEN Len(hist[i].ts) ELSE 0]>>

GInit == /\ \E e \in Ends : WInit([start |-> 1, end |-> (IF e = 0 THEN NoEnd ELSE e), bk |-> "free", max |-> 0])
         /\ reads = 0 /\ seen = <<>>
         /\ hist = <<[op |-> "cfg", end |-> conf.end]>>

Batches == {<<>>} \cup {<<[t |-> a, id |-> 0]>> : a \in {x \in Ts : x >= cur}}
    \cup {<<[t |-> p[1], id |-> 0], [t |-> p[2], id |-> 0]>> : p \in {q \in Ts \X Ts : q[1] >= cur /\ q[1] <= q[2]}}

H(r) == hist' = Append(hist, r)

GRead == /\ reads < MaxReads /\ reads' = reads + 1 /\ UNCHANGED seen
         /\ \/ \E b \in Batches : Read(cur, b, FALSE, FALSE)
                  /\ H([op |-> "read", err |-> FALSE, cancel |-> FALSE, ts |-> [i \in DOMAIN b |-> b[i].t]])
            \/ \E c \in BOOLEAN : Read(cur, <<>>, TRUE, c)
                  /\ H([op |-> "read", err |-> TRUE, cancel |-> c, ts |-> <<>>])
GErr   == \E r \in BOOLEAN : OnErr(r) /\ H([op |-> "back", ret |-> r]) /\ UNCHANGED <<reads, seen>>
GEmpty == \E r \in BOOLEAN : OnEmpty(r) /\ H([op |-> "back", ret |-> r]) /\ UNCHANGED <<reads, seen>>
GReset == Reset /\ UNCHANGED <<reads, hist, seen>>
GVisit == \E r \in BOOLEAN : Visit([i \in DOMAIN batch |-> batch[i].id], r)
              /\ H([op |-> "visit", ret |-> r])
              /\ seen' = seen \o [i \in DOMAIN batch |-> batch[i].t] /\ UNCHANGED reads
GDone  == Done /\ UNCHANGED <<reads, hist, seen>>
GNext  == GRead \/ GErr \/ GEmpty \/ GReset \/ GVisit \/ GDone
GSpec  == GInit /\ [][GNext]_gvars

Emit == (Emitting /\ ph' = "over") => PrintT("SCN " \o ToJson(hist))

Ascending == \A i \in 1..(Len(seen) - 1) : seen[i] <= seen[i + 1]
Within    == \A i \in DOMAIN seen : seen[i] >= conf.start /\ (conf.end # NoEnd => seen[i] < conf.end)
CurOk     == cur >= conf.start /\ (seen # <<>> => cur = seen[Len(seen)] + 1)
===============================================================================
