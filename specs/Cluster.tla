-------------------------------- MODULE Cluster --------------------------------
(* A cluster of nodes: envelopes are written through any node and read through  *)
(* any.  Ids of envelopes grow with their time.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    up,      \* the nodes that run
    route,   \* node -> (source -> its owners), what the node goes by
    store,   \* node -> set of [src, id, via] that is there for sure
    pend,    \* set of [n, via, src, id, sure]: sent by via, maybe not at n yet; sure: it will be
    near     \* set of <<via, n>>: via has reached n, and n has run since
cvars == <<up, route, store, pend, near>>

CInit(nodes, srcs) == /\ up = {} /\ route = [n \in nodes |-> [s \in srcs |-> {}]]
                      /\ store = [n \in nodes |-> {}] /\ pend = {} /\ near = {}
Nodes == DOMAIN route
Srcs(n) == DOMAIN route[n]
(* A node without peers keeps everything, no matter what it is told. *)
Lone == Cardinality(Nodes) = 1
Alone(n) == [s \in Srcs(n) |-> {n}]

(* ---- nodes and tables ---- *)
Up(n) == /\ n \in Nodes \ up /\ up' = up \cup {n}
         /\ route' = [route EXCEPT ![n] = IF Lone THEN Alone(n) ELSE [s \in Srcs(n) |-> {}]]
         /\ UNCHANGED <<store, pend, near>>
(* What a node held is gone; what was on its way from it or to it may be. *)
Down(n) == /\ n \in up /\ up' = up \ {n}
           /\ store' = [store EXCEPT ![n] = {}]
           /\ pend' = {IF n \in {p.n, p.via} THEN [p EXCEPT !.sure = FALSE] ELSE p : p \in pend}
           /\ near' = {x \in near : x[1] # n /\ x[2] # n}
           /\ UNCHANGED route
Tell(ns, t) == /\ ns \subseteq up
               /\ route' = [n \in Nodes |-> IF n \in ns /\ ~Lone THEN t ELSE route[n]]
               /\ UNCHANGED <<up, store, pend, near>>

(* ---- writing: batch is a set of [src, id] ---- *)
Send(via, batch) ==
    /\ via \in up
    /\ store' = [store EXCEPT ![via] = @ \cup {[src |-> x.src, id |-> x.id, via |-> via] : x \in {y \in batch : via \in route[via][y.src]}}]
    /\ pend' = pend \cup UNION {{[n |-> n, via |-> via, src |-> x.src, id |-> x.id, sure |-> <<via, n>> \in near] :
                                 n \in route[via][x.src] \ {via}} : x \in batch}
    /\ UNCHANGED <<up, route, near>>
SendLocal(via, batch) == /\ via \in up /\ store' = [store EXCEPT ![via] = @ \cup {[src |-> x.src, id |-> x.id, via |-> via] : x \in batch}] /\ UNCHANGED <<up, route, pend, near>>
(* A program brings envelopes to via, in its own time; from there they go on. *)
Relay(via, batch) ==
    /\ via \in up
    /\ pend' = pend \cup UNION {{[n |-> n, via |-> "syslog", src |-> x.src, id |-> x.id, sure |-> (n = via) \/ (<<via, n>> \in near)] :
                                 n \in route[via][x.src]} : x \in batch}
    /\ UNCHANGED <<up, route, store, near>>

(* ---- reading ---- *)
Err == [ok |-> FALSE, n |-> "-"]
Hit(n) == [ok |-> TRUE, n |-> n]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* Where a read of s through via may end, at most d nodes on. *)
RECURSIVE Ends(_, _, _)
Ends(via, s, d) ==
    LET owners == route[via][s] IN
    IF owners = {} THEN {Err}
    ELSE IF via \in owners THEN {Hit(via)}
    ELSE UNION {IF o \notin up \/ d = 0 THEN {Err}
                ELSE Ends(o, s, d - 1) \cup (IF <<via, o>> \in near THEN {} ELSE {Err}) : o \in owners}
Outcomes(via, s) == Ends(via, s, 3)

At(n, s) == {x.id : x \in {y \in store[n] : y.src = s}}
Coming(n, s) == {x.id : x \in {p \in pend : p.n = n /\ p.src = s}}
Sure(n, s) == {x.id : x \in {p \in pend : p.n = n /\ p.src = s /\ p.sure}}
(* Nodes that send to the same node do so in any order. *)
Mixed(n, s) == Cardinality({x.via : x \in {y \in store[n] : y.src = s}} \cup {p.via : p \in {q \in pend : q.n = n /\ q.src = s}}) > 1
(* Who is full gives the oldest away for the next: what came in order and is *)
(* not there is older than a full store; the newest always stays.            *)
(* (a query reads page after page, while more arrives) *)
Kept(must, ids, cap, mixed, paged) == LET miss == must \ ids IN
    IF miss = {} THEN TRUE ELSE (Cardinality(ids) = cap \/ (paged /\ Cardinality(ids) > cap)) /\ Max(miss) < (IF mixed THEN Max(ids) ELSE Min(ids))
Sorted(seq) == \A k \in 2..Len(seq) : seq[k - 1] < seq[k]
IdsOf(seq) == {seq[k] : k \in DOMAIN seq}
(* settled: enough time has passed for what is surely coming *)
Shows(n, s, seq, settled, cap, paged) ==
    /\ Sorted(seq) /\ (paged \/ Len(seq) <= cap)
    /\ IdsOf(seq) \subseteq At(n, s) \cup Coming(n, s)
    /\ Kept(At(n, s) \cup (IF settled THEN Sure(n, s) ELSE {}), IdsOf(seq), cap, Mixed(n, s), paged)
ReadOk(via, s, seq, settled, cap, paged) ==
    /\ via \in up
    /\ \E o \in Outcomes(via, s) :
        /\ o.ok /\ Shows(o.n, s, seq, settled, cap, paged)
        /\ store' = [store EXCEPT ![o.n] = @ \cup {[src |-> s, id |-> p.id, via |-> p.via] : p \in {q \in pend : q.n = o.n /\ q.src = s /\ q.id \in IdsOf(seq)}}]
        /\ pend' = {p \in pend : ~(p.n = o.n /\ p.src = s /\ p.id \in IdsOf(seq))}
    /\ near' = IF Cardinality(route[via][s]) = 1 THEN near \cup {<<via, n>> : n \in route[via][s] \ {via}} ELSE near
    /\ UNCHANGED <<up, route>>
(* A query asks any owner for each page. *)
QueryOk(via, s, seq, settled, cap) ==
    LET ends == {o.n : o \in {x \in Outcomes(via, s) : x.ok}} IN
    IF Cardinality(ends) < 2 THEN ReadOk(via, s, seq, settled, cap, TRUE)
    ELSE /\ via \in up /\ Sorted(seq)
         /\ IdsOf(seq) \subseteq UNION {At(n, s) \cup Coming(n, s) : n \in ends}
         /\ \E n \in ends : LET miss == (At(n, s) \cup (IF settled THEN Sure(n, s) ELSE {})) \ IdsOf(seq) IN
                             IF miss = {} THEN TRUE ELSE Len(seq) >= cap /\ Max(miss) < seq[Len(seq)]
         /\ UNCHANGED cvars
ReadErr(via, s) == via \in up /\ Err \in Outcomes(via, s) /\ UNCHANGED cvars

(* ---- meta, when all has settled: a set of [src, count, expired, lo, hi] ---- *)
RECURSIVE Newest(_, _)
Newest(S, cap) == IF Cardinality(S) <= cap THEN S ELSE Newest(S \ {Min(S)}, cap)
InfoOk(n, a, cap) ==
    LET must == At(n, a.src) \cup Sure(n, a.src)
        may == must \cup Coming(n, a.src)
        ids == Newest(must, cap)
    IN IF must = may THEN must # {} /\ a.count = Cardinality(ids) /\ (IF Mixed(n, a.src) THEN a.lo \in must ELSE a.lo = Min(ids)) /\ a.hi = Max(ids) /\ a.expired = Cardinality(must) - Cardinality(ids)
       ELSE a.lo \in may /\ a.hi \in may /\ a.lo <= a.hi /\ a.count <= Cardinality(may)
Reached(via) == {via} \cup {n \in up : <<via, n>> \in near}
Reachable(via, only) == IF only THEN {via} ELSE up
MetaOk(via, only, m, cap) ==
    /\ via \in up
    /\ \A a, b \in m : a.src = b.src => a = b
    /\ \A a \in m : \E n \in Reachable(via, only) : InfoOk(n, a, cap)
    /\ \A n \in Reached(via) \cap Reachable(via, only), s \in Srcs(via) : At(n, s) \cup Sure(n, s) # {} => \E a \in m : a.src = s
    /\ UNCHANGED cvars

(* ---- a table made by a scheduler that wants factor copies of everything ---- *)
Scheduled(t, factor) == \A s \in DOMAIN t : /\ t[s] \subseteq up
                                            /\ Cardinality(t[s]) = IF factor < Cardinality(up) THEN factor ELSE Cardinality(up)
Untold(t) == \A s \in DOMAIN t : t[s] = {}
===============================================================================
