----------------------------- MODULE LogStoreConc -----------------------------
(* The store's concurrent design: a put first locates (or creates) the storage  *)
(* of its source, then inserts under that storage's lock; the pruner takes a    *)
(* snapshot of all storages and then removes one envelope at a time, unlinking  *)
(* a storage it empties; meta lists the storages and then visits them.          *)
(* Fixed = FALSE is the design without (1) marking an unlinked storage, so that *)
(* a put notices and retries, (2) skipping storages that are still empty in the *)
(* snapshot, (3) reading a storage's meta where it is listed.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Putters, Srcs, PruneN, Fixed

VARIABLES
    index,    \* source -> id of its storage, 0 if none
    store,    \* storage id -> [n: envelopes held, dead: unlinked]
    ppc,      \* putter -> [pc, src, st]
    prn,      \* pruner: [pc, heap: set of storage ids, left]
    mta,      \* meta reader: [pc, todo: set of sources, seen]
    acked,    \* puts that returned
    gone,     \* envelopes pruned
    crash

vars == <<index, store, ppc, prn, mta, acked, gone, crash>>

Init ==
    /\ index = [s \in Srcs |-> 0]
    /\ store = <<>>
    /\ ppc \in [Putters -> [pc : {"start"}, src : Srcs, st : {0}]]
    /\ prn = [pc |-> "idle", heap |-> {}, left |-> PruneN]
    /\ mta = [pc |-> "idle", todo |-> {}]
    /\ acked = 0 /\ gone = 0 /\ crash = ""

Locate(p) ==
    /\ ppc[p].pc = "start"
    /\ LET s == ppc[p].src IN
       IF index[s] # 0
       THEN /\ ppc' = [ppc EXCEPT ![p].pc = "located", ![p].st = index[s]]
            /\ UNCHANGED <<index, store>>
       ELSE /\ store' = Append(store, [n |-> 0, dead |-> FALSE])
            /\ index' = [index EXCEPT ![s] = Len(store) + 1]
            /\ ppc' = [ppc EXCEPT ![p].pc = "located", ![p].st = Len(store) + 1]
    /\ UNCHANGED <<prn, mta, acked, gone, crash>>

Insert(p) ==
    /\ ppc[p].pc = "located"
    /\ IF Fixed /\ store[ppc[p].st].dead
       THEN /\ ppc' = [ppc EXCEPT ![p].pc = "start"]
            /\ UNCHANGED <<store, acked>>
       ELSE /\ store' = [store EXCEPT ![ppc[p].st].n = @ + 1]
            /\ ppc' = [ppc EXCEPT ![p].pc = "done"]
            /\ acked' = acked + 1
    /\ UNCHANGED <<index, prn, mta, gone, crash>>

Linked == {index[s] : s \in Srcs} \ {0}

Snapshot ==
    /\ prn.pc = "idle"
    /\ prn' = [prn EXCEPT !.pc = "prune", !.heap = IF Fixed THEN {i \in Linked : store[i].n > 0} ELSE Linked]
    /\ crash' = IF ~Fixed /\ \E i \in Linked : store[i].n = 0 THEN "oldest of an empty storage" ELSE crash
    /\ UNCHANGED <<index, store, ppc, mta, acked, gone>>

Remove ==
    /\ prn.pc = "prune"
    /\ IF prn.left = 0 \/ prn.heap = {}
       THEN prn' = [prn EXCEPT !.pc = "done"] /\ UNCHANGED <<index, store, gone>>
       ELSE \E i \in prn.heap :
            LET last == store[i].n = 1
            IN IF store[i].n = 0
               THEN prn' = [prn EXCEPT !.heap = @ \ {i}] /\ UNCHANGED <<index, store, gone>>
               ELSE /\ store' = [store EXCEPT ![i].n = @ - 1, ![i].dead = last]
                    /\ index' = IF last THEN [s \in Srcs |-> IF index[s] = i THEN 0 ELSE index[s]] ELSE index
                    /\ gone' = gone + 1
                    /\ prn' = [prn EXCEPT !.left = @ - 1, !.heap = IF last THEN @ \ {i} ELSE @]
    /\ UNCHANGED <<ppc, mta, acked, crash>>

List ==
    /\ mta.pc = "idle"
    /\ mta' = [pc |-> "visit", todo |-> {s \in Srcs : index[s] # 0}]
    /\ UNCHANGED <<index, store, ppc, prn, acked, gone, crash>>

Visit ==
    /\ mta.pc = "visit"
    /\ IF mta.todo = {} THEN mta' = [mta EXCEPT !.pc = "done"] /\ UNCHANGED crash
       ELSE \E s \in mta.todo :
            /\ mta' = [mta EXCEPT !.todo = @ \ {s}]
            /\ crash' = IF ~Fixed /\ index[s] = 0 THEN "count of an unlinked storage" ELSE crash
    /\ UNCHANGED <<index, store, ppc, prn, acked, gone>>

Next == Snapshot \/ Remove \/ List \/ Visit \/ \E p \in Putters : Locate(p) \/ Insert(p)
Spec == Init /\ [][Next]_vars

Reachable == LET RECURSIVE S(_)
                 S(T) == IF T = {} THEN 0 ELSE LET i == CHOOSE i \in T : TRUE IN store[i].n + S(T \ {i})
             IN S(Linked)

(* Whatever was acknowledged is readable or was pruned: nothing sits in an      *)
(* unlinked storage.                                                            *)
NoLoss  == acked = Reachable + gone
NoCrash == crash = ""
OneEach == \A s, u \in Srcs : s # u /\ index[s] # 0 => index[s] # index[u]
===============================================================================
