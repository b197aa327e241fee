------------------------------- MODULE WalkWorld ------------------------------
(* Why the walk may be relied upon: over a store that only ever returns whole   *)
(* timestamps and whose envelopes arrive at most Lag ticks after their          *)
(* timestamp, a walk that keeps Delay > Lag behind the clock visits every       *)
(* envelope exactly once, in order.  Split = TRUE lets a page end inside a      *)
(* timestamp, which breaks it, as does Delay <= Lag.                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
CONSTANTS MaxT, Lag, Delay, Limit, MaxEnv, Split

VARIABLES now, db, cur, seen
vars == <<now, db, cur, seen>>

Init == now = 0 /\ db = {} /\ cur = 0 /\ seen = <<>>

Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<db, cur, seen>>
Arrive == /\ Cardinality(db) < MaxEnv
          /\ \E t \in (IF now > Lag THEN now - Lag ELSE 0)..now :
                db' = db \cup {[id |-> Cardinality(db), t |-> t]}
          /\ UNCHANGED <<now, cur, seen>>

Order(S) == SetToSortSeq(S, LAMBDA a, b : a.t < b.t \/ (a.t = b.t /\ a.id < b.id))
Page == LET all == Order({e \in db : e.t >= cur})
            n   == IF Len(all) < Limit THEN Len(all) ELSE Limit
        IN IF n = 0 \/ Split THEN SubSeq(all, 1, n) ELSE SelectSeq(all, LAMBDA e : e.t <= all[n].t)
Step == LET got == SelectSeq(Page, LAMBDA e : e.t <= now - Delay)
        IN /\ got # <<>>
           /\ seen' = seen \o got
           /\ cur' = got[Len(got)].t + 1
           /\ UNCHANGED <<now, db>>
Next == Tick \/ Arrive \/ Step
Spec == Init /\ [][Next]_vars

Exactly == /\ \A i, j \in DOMAIN seen : i # j => seen[i].id # seen[j].id
           /\ ToSet(seen) = {e \in db : e.t < cur}
           /\ \A i \in 1..(Len(seen) - 1) : seen[i].t <= seen[i + 1].t
===============================================================================
