------------------------------ MODULE GenCluster -------------------------------
(* A cluster told one table at a time, with envelopes sent through any node,    *)
(* nodes lost and started again.                                                *)
EXTENDS Cluster, Json
CONSTANTS Ns, MaxOps, MaxFaults, Shifted, Relays, Emitting
(* Relays: no; yes, programs bring envelopes; kept, and the node they come to keeps them (a way to get it wrong). *)
VARIABLES sent, next, faults, ops, hist, mild
gvars == <<up, route, store, pend, near, sent, next, faults, ops, hist, mild>>
(* sent: [src, id] sent as the present table has it; mild: no node lost since. *)
Ss == {"a", "b"}
Table(a, b) == [s \in Ss |-> IF s = "a" THEN a ELSE b]
Tables == IF Cardinality(Ns) = 1 THEN {Table(Ns, {}), Table({}, {})}
          ELSE {t \in {Table({"0"}, {"1"}), Table({"1"}, {"2"}), Table({"0", "1"}, {}), Table({"2"}, Ns), Table({"1"}, {"0"})} : t["a"] \cup t["b"] \subseteq Ns}
H(r) == hist' = IF Emitting THEN Append(hist, r) ELSE hist
Op(r) == ops < MaxOps /\ ops' = ops + 1 /\ H(r)
None == [s \in Ss |-> {}]

GInit == /\ CInit(Ns, Ss) /\ sent = {} /\ next = 1 /\ faults = 0 /\ ops = 0 /\ hist = <<>> /\ mild = TRUE
(* All nodes are started, then reach each other. *)
GBoot == /\ up = {} /\ faults = 0 /\ up' = Ns /\ near' = {x \in Ns \X Ns : x[1] # x[2]}
         /\ route' = [n \in Ns |-> IF Lone THEN Alone(n) ELSE None]
         /\ UNCHANGED <<store, pend, sent, next, faults, ops, hist, mild>>
Booted == near # {} \/ faults > 0 \/ (Lone /\ up # {})
GTell == \E t \in Tables : /\ Booted /\ Op([op |-> "tell", t |-> t]) /\ Tell(up, t)
                           /\ (\E n \in up : route[n] # t) /\ sent' = {} /\ mild' = TRUE /\ UNCHANGED <<next, faults>>
(* One of the ways to get it wrong: every node is taken for its neighbour. *)
Shift(o) == CHOOSE n \in Ns : n # o
SendShifted(via, batch) == LET r == [route EXCEPT ![via] = [s \in Ss |-> {IF Cardinality(Ns) > 1 /\ o # via THEN Shift(o) ELSE o : o \in @[s]}]] IN
    /\ via \in up
    /\ store' = [store EXCEPT ![via] = @ \cup {[src |-> x.src, id |-> x.id, via |-> via] : x \in {y \in batch : via \in r[via][y.src]}}]
    /\ pend' = pend \cup UNION {{[n |-> n, via |-> via, src |-> x.src, id |-> x.id, sure |-> TRUE] : n \in r[via][x.src] \ {via}} : x \in batch}
    /\ UNCHANGED <<up, route, near>>
GSend == \E via \in up, s \in SUBSET Ss \ {{}} :
            LET batch == {[src |-> x, id |-> IF x = "a" THEN next ELSE next + 1] : x \in s} IN
            /\ Booted /\ Op([op |-> "send", via |-> via, srcs |-> s])
            /\ IF Shifted THEN SendShifted(via, batch) ELSE Send(via, batch)
            /\ sent' = sent \cup {x \in batch : route[via][x.src] # {}} /\ next' = next + 2 /\ UNCHANGED <<faults, mild>>
GLocal == \E via \in up : /\ Booted /\ MaxFaults > 0 /\ Op([op |-> "local", via |-> via]) /\ SendLocal(via, {[src |-> "a", id |-> next]})
                          /\ next' = next + 2 /\ UNCHANGED <<sent, faults, mild>>
Keep(via, batch) == /\ via \in up /\ UNCHANGED <<up, route, store, near>>
                    /\ pend' = pend \cup {[n |-> via, via |-> "syslog", src |-> x.src, id |-> x.id, sure |-> TRUE] : x \in batch}
GRelay == \E via \in up, s \in SUBSET Ss \ {{}} :
            LET batch == {[src |-> x, id |-> IF x = "a" THEN next ELSE next + 1] : x \in s} IN
            /\ Relays # "no" /\ Booted /\ Op([op |-> "relay", via |-> via, srcs |-> s])
            /\ IF Relays = "kept" THEN Keep(via, batch) ELSE Relay(via, batch)
            /\ sent' = sent \cup {x \in batch : route[via][x.src] # {}} /\ next' = next + 2 /\ UNCHANGED <<faults, mild>>
(* All that is on its way arrives; reads through all nodes follow. *)
GCheck == /\ Booted /\ pend # {} /\ Op([op |-> "check"])
          /\ store' = [n \in Ns |-> store[n] \cup {[src |-> p.src, id |-> p.id, via |-> p.via] : p \in {q \in pend : q.n = n /\ q.sure}}]
          /\ pend' = {p \in pend : ~p.sure} /\ UNCHANGED <<up, route, near, sent, next, faults, mild>>
GDown == \E n \in up : /\ Booted /\ faults < MaxFaults /\ Op([op |-> "down", n |-> n]) /\ Down(n)
                       /\ faults' = faults + 1 /\ mild' = FALSE /\ UNCHANGED <<sent, next>>
GUp == \E n \in Ns \ up : /\ Booted /\ Op([op |-> "up", n |-> n]) /\ Up(n) /\ UNCHANGED <<sent, next, faults, mild>>
GNext == GBoot \/ GTell \/ GSend \/ GLocal \/ GRelay \/ GCheck \/ GDown \/ GUp
GSpec == GInit /\ [][GNext]_gvars
Emit == (Emitting /\ ops' = MaxOps) => PrintT("SCN " \o ToJson(hist'))

Uniform == \A n, m \in up : route[n] = route[m]
Sent(s) == {x.id : x \in {y \in sent : y.src = s}}
(* What was sent through any node can be read through all, from whichever owner. *)
Everywhere == (pend = {} /\ mild /\ Booted /\ Uniform) =>
    \A via \in up, s \in Ss : \A o \in Outcomes(via, s) : IF o.ok THEN Sent(s) \subseteq At(o.n, s) ELSE \E n \in route[via][s] \cup (IF route[via][s] = {} THEN {via} ELSE {}) : <<via, n>> \notin near
(* Without an owner there is no answer, not even an empty one. *)
NoOwner == \A via \in up, s \in Ss : (Booted /\ Uniform /\ route[via][s] \cap up = {}) => Outcomes(via, s) = {Err}
LoneAll == Lone /\ Booted /\ mild => \A n \in up, s \in Ss : Sent(s) \subseteq At(n, s)
===============================================================================
