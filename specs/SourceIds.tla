------------------------------- MODULE SourceIds -------------------------------
(* What a query says about sources, and how times, durations and steps are      *)
(* read.                                                                        *)
(*                                                                              *)
(* A query is [parses, skel, sels]: sels are its selectors in order, each the   *)
(* set of its source_id matchers [kind, vals], kind "is" for = and =~ (a list   *)
(* of sources) and "not" for != and !~; skel is all the rest of it.             *)
(*                                                                              *)
(* An instant or a duration is [k, s, n]: k * 100000 + s seconds and n          *)
(* nanoseconds, with 0 <= s < 100000 and 0 <= n < 10^9.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE told            \* the last answer
svars == <<told>>

NamesOf(sel) == UNION {m.vals : m \in {x \in sel : x.kind = "is"}}
Names(q) == UNION {NamesOf(q.sels[i]) : i \in DOMAIN q.sels}
(* Every source is replaced by its set; a list that comes out empty names only the empty name. *)
Expanded(V, map) == LET S == UNION {map[v] : v \in V} IN IF S = {} THEN {""} ELSE S
Rewritten(q, map) == [q EXCEPT !.sels = [i \in DOMAIN q.sels |-> {IF m.kind = "is" THEN [m EXCEPT !.vals = Expanded(m.vals, map)] ELSE m : m \in q.sels[i]}]]

None == [op |-> "none"]
SiInit == told = None
Extracted(q, err, ids) == /\ err <=> ~q.parses
                          /\ q.parses => ids = Names(q)
                          /\ told' = [op |-> "extract", ids |-> ids]
(* The map names every source of the query. *)
Replaced(q, map, err, q2) == /\ q.parses => Names(q) \subseteq DOMAIN map
                             /\ err <=> ~q.parses
                             /\ q.parses => q2 = Rewritten(q, map)
                             /\ told' = [op |-> "replace", q |-> q2]

-------------------------------------------------------------------------------
(* Times and durations fit if their nanoseconds do; within a second of the ends *)
(* nothing is said.                                                             *)
Less(x, y) == \/ x.k < y.k
              \/ x.k = y.k /\ x.s < y.s
Top == [k |-> 92233, s |-> 72036]
Bottom == [k |-> -92234, s |-> 27963]
Apart(x, y) == (x.k - y.k) * 100000 + x.s - y.s        \* only for x, y close to each other
Close(x, y) == x.k - y.k \in -1..1 /\ Apart(x, y) \in -1..1
AtEdge(x) == Close(x, Top) \/ Close(x, Bottom)
Fits(x) == Less(x, Top) /\ Less(Bottom, x)
Off(x, y) == Apart(x, y) * 1000000000 + x.n - y.n      \* only for Close ones
Within(x, y, tol) == Close(x, y) /\ Off(x, y) <= tol /\ -Off(x, y) <= tol

Units == [ms |-> [k |-> 0, s |-> 0, n |-> 1000000], s |-> [k |-> 0, s |-> 1, n |-> 0], m |-> [k |-> 0, s |-> 60, n |-> 0], h |-> [k |-> 0, s |-> 3600, n |-> 0],
          d |-> [k |-> 0, s |-> 86400, n |-> 0], w |-> [k |-> 6, s |-> 4800, n |-> 0], y |-> [k |-> 315, s |-> 36000, n |-> 0]]
Times(c, u) == LET s == c * u.s + (IF u.n > 0 THEN c \div 1000 ELSE 0) IN
               [k |-> c * u.k + (s \div 100000), s |-> s % 100000, n |-> IF u.n > 0 THEN (c % 1000) * u.n ELSE 0]

(* p is [form, v, tol]: a text of this form that stands for v, given to within *)
(* tol nanoseconds; or [form |-> "dur", c, unit]; or [form |-> "bad"].          *)
Means(p) == IF p.form = "dur" THEN Times(p.c, Units[p.unit]) ELSE p.v
(* A number of milliseconds is read exactly as a time, others to the millisecond. *)
Tol(what, p) == CASE p.form # "unix" -> 0
                  [] what = "time" -> IF p.v.n % 1000000 = 0 THEN 0 ELSE 1000000
                  [] OTHER -> 5000
Reads == [time |-> {"unix", "rfc"}, step |-> {"unix", "dur"}, duration |-> {"dur"}]
Parsed(what, p, ok, v) ==
    /\ IF p.form \notin Reads[what] THEN ~ok
       ELSE IF AtEdge(Means(p)) THEN TRUE
       ELSE IF ~Fits(Means(p)) THEN ~ok
       ELSE ok /\ Within(v, Means(p), Tol(what, p))
    /\ told' = [op |-> what, ok |-> ok, v |-> v]
===============================================================================
