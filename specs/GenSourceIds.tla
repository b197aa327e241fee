----------------------------- MODULE GenSourceIds ------------------------------
EXTENDS SourceIds, Json
CONSTANTS Emitting, MaxSels, MaxMatchers
VARIABLES hist, q, map
gvars == <<told, hist, q, map>>

Words == {"a", "b", "n"}
Matcher == {[kind |-> "is", vals |-> W] : W \in (SUBSET Words) \ {{}}} \cup {[kind |-> "not", vals |-> {"a"}], [kind |-> "not", vals |-> {"a", "n"}]}
SelSet == {M \in SUBSET Matcher : Cardinality(M) <= MaxMatchers}
Queries == {[parses |-> TRUE, skel |-> "k", sels |-> s] : s \in UNION {[1..k -> SelSet] : k \in 0..MaxSels}}
           \cup {[parses |-> FALSE, skel |-> "", sels |-> << >>]}
Maps == [Words -> {{}, {"x"}, {"a", "b"}}] \cup {[w \in Words |-> {w}], [w \in Words |-> {w, "x"}], [w \in Words |-> IF w = "n" THEN {"a", "b", "n"} ELSE {w}]}

GInit == SiInit /\ q \in Queries /\ map \in Maps
         /\ hist = IF Emitting THEN <<[op |-> "query", q |-> q, map |-> map]>> ELSE << >>
GExtract == told = None /\ Extracted(q, ~q.parses, Names(q)) /\ UNCHANGED <<hist, q, map>>
GReplace == told.op = "extract" /\ \E r \in {IF q.parses THEN Rewritten(q, map) ELSE q} : Replaced(q, map, ~q.parses, r)
            /\ UNCHANGED <<hist, q, map>>
GNext == GExtract \/ GReplace
GSpec == GInit /\ [][GNext]_gvars
Emit == (Emitting /\ told'.op = "extract") => PrintT("SCN " \o ToJson(hist))

(* The rewritten query names exactly what its names stand for. *)
Exactly == told.op = "replace" /\ q.parses =>
    Names(told.q) \ {""} = (UNION {map[w] : w \in Names(q)}) \ {""}
(* Names that stand for themselves change nothing. *)
Same == told.op = "replace" /\ (\A w \in Words : map[w] = {w}) => told.q = q
(* Every selector of its own. *)
Apiece == told.op = "replace" /\ q.parses => \A i \in DOMAIN q.sels : \A m \in told.q.sels[i] : m.kind = "not" => m \in q.sels[i]
===============================================================================
