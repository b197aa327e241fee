------------------------------- MODULE GenPromQL -------------------------------
EXTENDS PromQL, Json
CONSTANTS Emitting, MaxSamples, Wide, Faults
VARIABLES hist
gvars == <<store, broken, last, hist>>

Now == 600000
Slots == IF Wide THEN {Now - 301000, Now - 299500, Now - 10000, Now - 500, Now + 300} ELSE {Now - 20000, Now - 10700, Now - 10000}
Tags == {{}, {<<"k", "v">>}} \cup (IF Wide THEN {{<<"k", "w">>}, {<<"source_id", "b">>}} ELSE {})
Insts == IF Wide THEN {"", "0"} ELSE {""}
NamesIn == {"m", "n"}
(* Samples are put in order of time; which is which is told by their value. *)
SamplesAt(i) == {[src |-> s, inst |-> n, tags |-> g, name |-> m, t |-> t, v |-> i] : s \in {"a", "b"}, n \in Insts, g \in Tags, m \in NamesIn, t \in Slots}
Stores == UNION {{s \in [1..n -> UNION {SamplesAt(i) : i \in 1..n}] : (\A i \in 1..n : s[i].v = i) /\ (\A i \in 2..n : s[i-1].t <= s[i].t)} : n \in 1..MaxSamples}

Is(S) == [kind |-> "is", vals |-> S]
Not(S) == [kind |-> "not", vals |-> S]
Sources == {{}, {Is({"a"})}, {Is({"a", "b"})}, {Is({"a", "b"}), Not({"b"})}, {Is({"a"}), Is({"b"})}, {Not({"b"})}}
L(k, m) == [label |-> k, kind |-> m.kind, vals |-> m.vals]
MatcherSets == {{}, {L("k", Is({"v"}))}, {L("k", Not({"v"}))}, {L("k", Is({""}))}}
            \cup (IF Wide THEN {{L("k", Is({"v", "w"}))}, {L("k", Not({"", "w"}))}, {L("instance_id", Is({"0"}))}, {L("instance_id", Not({"0"}))}} ELSE {})
NameSets == {{Is({"m"})}} \cup (IF Wide THEN {{Is({"m", "n"})}, {Not({"n"})}} ELSE {})
Sel(n, s, m, r, o) == [names |-> n, sources |-> s, matchers |-> m, range |-> r, offset |-> o]
Query(k, sels, a, b, st) == [parses |-> TRUE, kind |-> k, sels |-> sels, start |-> a, end |-> b, step |-> st, scalar |-> "-"]
Instants == {Query("instant", <<Sel(n, s, m, 0, 0)>>, Now, Now, 0) : n \in NameSets, s \in Sources, m \in MatcherSets}
Matrices == {Query("matrix", <<Sel(n, s, m, 10000, o)>>, Now, Now, 0) : n \in NameSets, s \in Sources, m \in MatcherSets, o \in {0, 10000}}
Ranges == {Query("range", <<Sel({Is({"m"})}, s, m, 0, 0)>>, Now - 15000, Now, 5000) : s \in Sources, m \in MatcherSets}
          \cup {Query("range", <<Sel({Is({"m"})}, s, {}, 0, 0)>>, a, b, st) : s \in {{Is({"a"})}}, a \in {Now, Now - 1000}, b \in {Now, Now - 2000}, st \in {0, 1000, -1000}}
Ors == {Query("instant", <<Sel({Is({"m"})}, s, m, 0, o), Sel({Is({"n"})}, z, {}, 0, 0)>>, Now, Now, 0) : s \in Sources, z \in Sources, m \in {{}, {L("k", Is({"v"}))}}, o \in {0, 15000}}
Queries == Instants \cup Matrices \cup Ranges \cup (IF MaxSamples > 1 THEN Ors ELSE {})

GInit == PqInit /\ hist = << >>
GWorld == /\ last.op = "none"
          /\ \E s \in Stores, b \in IF Faults THEN {{}, {"b"}} ELSE {{}} :
                World(s, b) /\ hist' = IF Emitting THEN <<[op |-> "world", samples |-> s, broken |-> b]>> ELSE hist
GAsk == /\ last.op = "world"
        /\ \E q \in Queries : /\ IF MustFail(q) THEN Failed(q) ELSE last' = [op |-> "asked", q |-> q] /\ UNCHANGED <<store, broken>>
                              /\ hist' = IF Emitting THEN Append(hist, [op |-> "query", q |-> q]) ELSE hist
GNext == GWorld \/ GAsk
GSpec == GInit /\ [][GNext]_gvars
Emit == (Emitting /\ last'.op \in {"asked", "failed"}) => PrintT("SCN " \o ToJson(hist'))

Asked == last.op = "asked"
(* Nothing is seen of sources that are not named, nor of those excluded. *)
OnlyNamed == Asked => \A k \in DOMAIN last.q.sels : \A i \in Samples(last.q.sels[k]) :
    /\ store[i].src \in Named(last.q.sels[k])
    /\ \A m \in last.q.sels[k].sources : Holds(m, store[i].src)
(* What a label matcher takes and what its opposite takes are all there is, each in series of its own. *)
Opposite(m) == [m EXCEPT !.kind = IF @ = "is" THEN "not" ELSE "is"]
Partition == Asked => \A k \in DOMAIN last.q.sels : LET sel == last.q.sels[k] IN \A m \in sel.matchers :
    LET rest == [sel EXCEPT !.matchers = @ \ {m}]
        other == [sel EXCEPT !.matchers = (@ \ {m}) \cup {Opposite(m)}] IN
    /\ Samples(sel) \cup Samples(other) = Samples(rest)
    /\ Samples(sel) \cap Samples(other) = {}
    /\ Series(sel) \cap Series(other) = {}
(* There is a right answer to every query with sense, and it is empty only if nothing may be seen. *)
Canon(q) == LET Ls == {x \in AllSeries(q) : Of(q, x, q.end).vals # {}} IN
            IF q.kind # "instant" THEN {} ELSE {[l |-> x, v |-> CHOOSE v \in Of(q, x, q.end).vals : TRUE] : x \in Ls}
RECURSIVE AsSeq(_, _)
AsSeq(S, t) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<[labels |-> x.l, points |-> <<[t |-> t, v |-> x.v]>>]>> \o AsSeq(S \ {x}, t)
Answerable == Asked /\ last.q.kind = "instant" => Right(last.q, AsSeq(Canon(last.q), last.q.end))
===============================================================================
