----------------------------- MODULE GenScheduler -----------------------------
(* Rounds of a scheduler that lists, removes what is too much and adds what is  *)
(* missing, lists again and tells, while nodes fail, recover and forget.  The   *)
(* range arithmetic is checked for words smaller than 64 bits.                  *)
EXTENDS Scheduler, Json
CONSTANTS Ns, Rs, Factor, MaxFaults, MaxRounds, TellStale, Emitting
VARIABLES pc, since, faults, rounds, hist
gvars == <<held, view, told, down, lead, pc, since, faults, rounds, hist>>

GInit == /\ \E h \in [Ns -> {{}, Rs \cup {"foreign"}, {"foreign"}}] : SInit(Ns, h)
         /\ pc = "idle" /\ since = 0 /\ faults = 0 /\ rounds = 0 /\ hist = <<>>
H(r) == hist' = IF Emitting THEN Append(hist, r) ELSE hist
Same == UNCHANGED hist
Fault(n, r) == /\ faults < MaxFaults /\ (Emitting => pc = "idle") /\ faults' = faults + 1 /\ since' = 0 /\ H(r) /\ UNCHANGED <<pc, rounds>>
GFault == \/ \E n \in Ns : /\ Cardinality(down) + 1 < Cardinality(Ns) /\ Fail(n) /\ Fault(n, [op |-> "fail", n |-> n])
          \/ \E n \in Ns : Recover(n) /\ Fault(n, [op |-> "recover", n |-> n])
          \/ \E n \in Ns : Forget(n) /\ Fault(n, [op |-> "forget", n |-> n])
          \/ Leader(~lead) /\ Fault(0, [op |-> "leader", v |-> ~lead])
Listing(next) == /\ view' = [n \in Ns |-> IF n \in down THEN Unknown ELSE held[n]] /\ pc' = next
                 /\ UNCHANGED <<held, told, down, lead, since, faults, rounds>> /\ Same
GList1 == pc = "idle" /\ rounds < MaxRounds /\ Listing("change")
Seen(n) == IF view[n] = Unknown THEN {} ELSE view[n]
Known == {n \in Ns : view[n] # Unknown}
Want == IF Factor < Cardinality(Known) THEN Factor ELSE Cardinality(Known)
(* One of the ways to reach the wanted assignment from what was seen. *)
GChange == /\ pc = "change" /\ pc' = "list2" /\ Same /\ UNCHANGED <<view, told, down, lead, since, faults, rounds>>
           /\ IF ~lead THEN UNCHANGED held
              ELSE \E a \in [Rs -> {s \in SUBSET Known : Cardinality(s) = Want}] :
                     held' = [n \in Ns |-> IF n \in Known \ down
                                           THEN {r \in Rs : n \in a[r]} ELSE held[n]]
GList2 == pc = "list2" /\ IF TellStale THEN pc' = "tell" /\ Same /\ UNCHANGED <<held, view, told, down, lead, since, faults, rounds>>
                          ELSE Listing("tell")
GTell == /\ pc = "tell" /\ pc' = "idle" /\ rounds' = rounds + 1 /\ since' = since + 1 /\ Same
         /\ told' = IF lead THEN [n \in Ns |-> IF n \in down THEN told[n] ELSE Actual] ELSE told
         /\ UNCHANGED <<held, view, down, lead, faults>>
GNext == GFault \/ GList1 \/ GChange \/ GList2 \/ GTell
GSpec == GInit /\ [][GNext]_gvars
Restored == (pc = "idle" /\ since >= 2 /\ lead) => Assigned(Rs, Factor) /\ Informed
Passive == [][~lead /\ ~lead' /\ pc' # pc => held' = held /\ told' = told]_gvars
Emit == (Emitting /\ faults' > faults) => PrintT("SCN " \o ToJson(hist'))

(* The ranges of a count, for hashes 0..m: as the scheduler cuts them. *)
Cut(m, count) == LET x == m \div count
                 IN [k \in 1..count |-> [lo |-> (k - 1) * (x + 1), hi |-> IF k = count THEN m ELSE (k - 1) * (x + 1) + x]]
Covers(m, c) == LET p == Cut(m, c) IN \A h \in 0..m : Cardinality({k \in 1..c : p[k].lo <= h /\ h <= p[k].hi}) = 1
ASSUME \A m \in {15, 63, 255} : \A c \in 1..3 : Covers(m, c)
ASSUME \A c \in 1..15 : Covers(255, c)
===============================================================================
