------------------------------ MODULE Scheduler -------------------------------
(* The scheduler and the nodes it tells which hash ranges to serve.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    held,   \* node -> set of ranges it serves
    view,   \* node -> what it listed last, or Unknown if it did not answer
    told,   \* node -> the last table it was told: set of [n, r]
    down,   \* nodes that do not answer
    lead    \* what the scheduler last heard about its leadership
svars == <<held, view, told, down, lead>>
Unknown == {"?"}

SInit(nodes, h) == /\ held = h /\ view = [n \in nodes |-> Unknown] /\ told = [n \in nodes |-> {}]
                   /\ down = {} /\ lead = FALSE
Nodes == DOMAIN held
Live == Nodes \ down

(* ---- what happens to nodes ---- *)
Fail(n) == n \in Live /\ down' = down \cup {n} /\ UNCHANGED <<held, view, told, lead>>
Recover(n) == n \in down /\ down' = down \ {n} /\ UNCHANGED <<held, view, told, lead>>
Forget(n) == held' = [held EXCEPT ![n] = {}] /\ told' = [told EXCEPT ![n] = {}] /\ UNCHANGED <<view, down, lead>>
Leader(v) == lead' = v /\ UNCHANGED <<held, view, told, down>>

(* ---- what the scheduler does ---- *)
List(n, rs) == n \in Live /\ rs = held[n] /\ view' = [view EXCEPT ![n] = rs] /\ UNCHANGED <<held, told, down, lead>>
NotListed(n) == n \in down /\ view' = [view EXCEPT ![n] = Unknown] /\ UNCHANGED <<held, told, down, lead>>
Add(n, r) == /\ lead /\ held' = IF n \in down THEN held ELSE [held EXCEPT ![n] = @ \cup {r}]
             /\ UNCHANGED <<view, told, down, lead>>
Remove(n, r) == /\ lead /\ held' = IF n \in down THEN held ELSE [held EXCEPT ![n] = @ \ {r}]
                /\ UNCHANGED <<view, told, down, lead>>
Actual == UNION {{[n |-> n, r |-> r] : r \in view[n]} : n \in {m \in Nodes : view[m] # Unknown}}
Tell(n, t) == /\ lead /\ t = Actual
              /\ told' = IF n \in down THEN told ELSE [told EXCEPT ![n] = t]
              /\ UNCHANGED <<held, view, down, lead>>

(* ---- what must be reached ---- *)
Copies(r) == Cardinality({n \in Live : r \in held[n]})
Assigned(rs, factor) == /\ UNION {held[n] : n \in Live} \subseteq rs
                        /\ \A r \in rs : Copies(r) = IF factor < Cardinality(Live) THEN factor ELSE Cardinality(Live)
Real == UNION {{[n |-> n, r |-> r] : r \in held[n]} : n \in Live}
Informed == \A n \in Live : told[n] = Real

(* ---- the ranges: 64-bit bounds as four limbs, least significant first ---- *)
RECURSIVE Succ(_)
Succ(a) == IF a = <<>> THEN <<>> ELSE IF Head(a) = 65535 THEN <<0>> \o Succ(Tail(a)) ELSE <<Head(a) + 1>> \o Tail(a)
RECURSIVE Lt(_, _)
Lt(a, b) == a # <<>> /\ (Lt(Tail(a), Tail(b)) \/ (Tail(a) = Tail(b) /\ Head(a) < Head(b)))
Zero64 == <<0, 0, 0, 0>>
Max64 == <<65535, 65535, 65535, 65535>>
(* parts, in order, cover every hash once *)
Partition(parts) == /\ parts # <<>> /\ parts[1].lo = Zero64 /\ parts[Len(parts)].hi = Max64
                    /\ \A k \in DOMAIN parts : ~Lt(parts[k].hi, parts[k].lo)
                    /\ \A k \in 1..(Len(parts) - 1) : parts[k + 1].lo = Succ(parts[k].hi) /\ parts[k].hi # Max64
===============================================================================
