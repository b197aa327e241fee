-------------------------------- MODULE PromQL ---------------------------------
(* What queries answer: which stored samples they see, in which series.         *)
(*                                                                              *)
(* store is a sequence of samples [src, inst, tags, name, t, v]: tags is a set  *)
(* of pairs <<label, value>>, inst the instance or "", name the metric name as  *)
(* queries write it, t its time in milliseconds since some base, v its value.   *)
(* An envelope with several metrics is several samples.  broken is the set of   *)
(* sources that cannot be read.                                                 *)
(*                                                                              *)
(* A selector is [names, sources, matchers, range, offset]: names and sources   *)
(* are sets of matchers [kind, vals] on the metric name and the source, kind    *)
(* "is" (one of vals, = or =~) or "not" (none of vals); matchers are on other   *)
(* labels, [label, kind, vals].  range is 0 for an instant vector.              *)
(* A query is [parses, kind, sels, start, end, step]: kind "instant", "matrix"  *)
(* (a range selector at an instant), "range", "scalar" or "string"; sels are    *)
(* combined by "or".                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES store, broken, last
pvars == <<store, broken, last>>

Lookback == 300000
MaxPoints == 11000
Second(t) == (t \div 1000) * 1000

(* What a sample carries: its tags, its source and its instance. *)
Labels(x) == {p \in x.tags : p[1] # "source_id" /\ (p[1] = "instance_id" => x.inst = "")}
             \cup {<<"source_id", x.src>>} \cup (IF x.inst = "" THEN {} ELSE {<<"instance_id", x.inst>>})
Holds(m, v) == IF m.kind = "is" THEN v \in m.vals ELSE v \notin m.vals
(* A label that is not there is the same as an empty one. *)
Value(labels, k) == LET S == {p \in labels : p[1] = k} IN IF S = {} THEN "" ELSE (CHOOSE p \in S : TRUE)[2]

Named(sel) == UNION {m.vals : m \in {x \in sel.sources : x.kind = "is"}}
Wanted(sel) == {s \in Named(sel) : \A m \in sel.sources : Holds(m, s)}
Selected(sel, x) == /\ x.src \in Wanted(sel)
                    /\ \A m \in sel.names : Holds(m, x.name)
                    /\ \A m \in sel.matchers : Holds(m, Value(Labels(x), m.label))
Samples(sel) == {i \in DOMAIN store : Selected(sel, store[i])}

(* What is in the very second a query ends in, at or after its end, may be seen  *)
(* or not.  Of several samples of a series in one second any may be the newest.  *)
Sure(q, i) == store[i].t < q.end
Series(sel) == {Labels(store[i]) : i \in Samples(sel)}
At(sel, labels, q, t) ==
    {i \in Samples(sel) : Labels(store[i]) = labels /\ Second(store[i].t) <= t - sel.offset /\ Second(store[i].t) >= t - sel.offset - Lookback}
(* The values a series may have at t; "-" for none. *)
Options(sel, labels, q, t) ==
    LET C == At(sel, labels, q, t)
        M == {i \in C : Sure(q, i)}
        New == {i \in C : \A j \in M : Second(store[j].t) <= Second(store[i].t)}
        Old == {i \in C : Second(store[i].t) = t - sel.offset - Lookback}      \* just about to be too old
    IN [vals |-> {store[i].v : i \in New}, none |-> M \subseteq Old]
(* Two selectors joined by "or": the series of the second only where the first has none. *)
RECURSIVE OrFrom(_, _, _, _)
OrFrom(q, k, labels, t) ==
    LET o == Options(q.sels[k], labels, q, t) IN
    IF k = Len(q.sels) \/ ~o.none THEN o
    ELSE LET p == OrFrom(q, k + 1, labels, t) IN [vals |-> o.vals \cup p.vals, none |-> p.none]
Of(q, labels, t) == OrFrom(q, 1, labels, t)
AllSeries(q) == UNION {Series(q.sels[k]) : k \in DOMAIN q.sels}

(* A range selector sees all samples of its time. *)
InRange(sel, labels, q, i) == /\ i \in Samples(sel) /\ Labels(store[i]) = labels
                              /\ Second(store[i].t) <= q.end - sel.offset
                              /\ Second(store[i].t) >= q.end - sel.offset - sel.range
Count(s, P(_)) == Cardinality({k \in DOMAIN s : P(s[k])})
(* points: a sequence of [t, v] *)
MatrixSeries(q, labels, points) ==
    LET sel == q.sels[1]
        May == {i \in DOMAIN store : InRange(sel, labels, q, i)}
        Must == {i \in May : Sure(q, i)}
        SameAs(i) == [t |-> Second(store[i].t), v |-> store[i].v]
    IN /\ \A k \in DOMAIN points : \E i \in May : SameAs(i) = points[k]
       /\ \A i \in May : LET p == SameAs(i) IN
             /\ Count(points, LAMBDA x : x = p) <= Cardinality({j \in May : SameAs(j) = p})
             /\ p.t < q.end - sel.offset => Count(points, LAMBDA x : x = p) >= Cardinality({j \in Must : SameAs(j) = p})
       (* of several in the last second one is enough *)
       /\ (\E i \in Must : SameAs(i).t = q.end - sel.offset) => \E k \in DOMAIN points : points[k].t = q.end - sel.offset
       /\ \A k \in DOMAIN points : k > 1 => points[k - 1].t <= points[k].t

Steps(q) == {q.start + k * q.step : k \in 0..((q.end - q.start) \div q.step)}
RangeSeries(q, labels, points) ==
    /\ \A k \in DOMAIN points : points[k].t \in Steps(q) /\ (k > 1 => points[k - 1].t < points[k].t)
    /\ \A t \in Steps(q) : LET o == Of(q, labels, t)
                               here == {k \in DOMAIN points : points[k].t = t} IN
                           IF here = {} THEN o.none ELSE \A k \in here : points[k].v \in o.vals

(* answer: a sequence of [labels, points] *)
Distinct(answer) == \A i, j \in DOMAIN answer : answer[i].labels = answer[j].labels => i = j
PointsOf(answer, labels) == LET S == {i \in DOMAIN answer : answer[i].labels = labels} IN
                            IF S = {} THEN << >> ELSE answer[CHOOSE i \in S : TRUE].points
Right(q, answer) ==
    /\ Distinct(answer)
    /\ q.kind # "scalar" => \A i \in DOMAIN answer : answer[i].labels \in AllSeries(q) /\ answer[i].points # << >>
    /\ CASE q.kind = "instant" -> \A L \in AllSeries(q) : LET ps == PointsOf(answer, L)
                                                              o == Of(q, L, q.end) IN
                                     IF ps = << >> THEN o.none ELSE Len(ps) = 1 /\ ps[1].t = q.end /\ ps[1].v \in o.vals
         [] q.kind = "matrix" -> \A L \in AllSeries(q) : MatrixSeries(q, L, PointsOf(answer, L))
         [] q.kind = "range" -> \A L \in AllSeries(q) : RangeSeries(q, L, PointsOf(answer, L))
         [] OTHER -> answer = <<[labels |-> {}, points |-> <<[t |-> q.end, v |-> q.scalar]>>]>>

(* Sense and nonsense *)
Sane(q) == /\ q.parses /\ q.kind # "string"
           /\ q.kind = "range" => q.step > 0 /\ q.end >= q.start /\ (q.end - q.start) \div q.step <= MaxPoints
MustFail(q) == \/ ~Sane(q)
               \/ \E k \in DOMAIN q.sels : Named(q.sels[k]) = {} \/ Wanted(q.sels[k]) \cap broken # {}
MayFail(q) == MustFail(q) \/ \E k \in DOMAIN q.sels : Named(q.sels[k]) \cap broken # {}

PqInit == store = << >> /\ broken = {} /\ last = [op |-> "none"]
World(s, b) == store' = s /\ broken' = b /\ last' = [op |-> "world"]
Failed(q) == MayFail(q) /\ last' = [op |-> "failed", q |-> q] /\ UNCHANGED <<store, broken>>
Answered(q, answer) == /\ ~MustFail(q) /\ Right(q, answer)
                       /\ last' = [op |-> "answered", q |-> q, a |-> answer] /\ UNCHANGED <<store, broken>>
===============================================================================
