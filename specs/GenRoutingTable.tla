--------------------------- MODULE GenRoutingTable ----------------------------
(* Up to MaxSets tables of at most two ranges each (Emitting = TRUE: one after   *)
(* another; else with concurrent lookups).                                       *)
EXTENDS RoutingTable, Json
CONSTANTS Points, Nodes, MaxSets, MaxCalls, Emitting
VARIABLES nset, ncall, hist
gvars == <<table, pend, nset, ncall, hist>>
Ranges == [node : Nodes, lo : Points, hi : Points]
Small == {{}} \cup {{r} : r \in Ranges} \cup {{r, s} : r \in Ranges, s \in Ranges}
SmallGen == IF nset = 0 THEN Small ELSE {{}} \cup {{r} : r \in Ranges}
GInit == RInit /\ nset = 0 /\ ncall = 0 /\ hist = <<>>
RECURSIVE SeqOf(_)
SeqOf(t) == IF t = {} THEN <<>> ELSE LET r == CHOOSE r \in t : TRUE IN <<r>> \o SeqOf(t \ {r})
GSet == /\ nset < MaxSets /\ ncall < MaxCalls /\ (Emitting => pend = None)
        /\ nset' = nset + 1 /\ ncall' = ncall + 1
        /\ \E t \in SmallGen : SetStart(ncall + 1, t) /\ hist' = IF Emitting THEN Append(hist, [op |-> "set", t |-> SeqOf(t)]) ELSE hist
GTake == \E i \in DOMAIN pend : Take(i) /\ UNCHANGED <<nset, ncall, hist>>
GSetEnd == \E i \in DOMAIN pend : SetEnd(i) /\ UNCHANGED <<nset, ncall, hist>>
GLook == /\ ~Emitting /\ ncall < MaxCalls /\ ncall' = ncall + 1 /\ UNCHANGED <<nset, hist>>
         /\ \E h \in Points : LookupStart(ncall + 1, h)
GLookEnd == /\ UNCHANGED <<nset, ncall, hist>>
            /\ \E i \in DOMAIN pend : pend[i].kind = "lookup" /\ \E r \in pend[i].seen : LookupEnd(i, r)
GNext == GSet \/ GTake \/ GSetEnd \/ GLook \/ GLookEnd
GSpec == GInit /\ [][GNext]_gvars
(* Every answer given belongs to one table that was in force: never a mixture of two. *)
OneTable == \A i \in DOMAIN pend : pend[i].kind = "lookup" => \A s \in pend[i].seen : s \subseteq Nodes
Emit == (Emitting /\ nset = MaxSets /\ pend' = None) => PrintT("SCN " \o ToJson(hist))
(* The static routes partition the hashes: each has exactly one. *)
StaticHashes == {<<0,0,0,0>>, <<1,0,0,0>>, <<0,0,0,32768>>, <<65535,65535,65535,32767>>, <<65534,65535,65535,65535>>, MaxHash} \cup
                {<<a, b, c, d>> : a \in {0, 65535}, b \in {0, 21845}, c \in {0, 21846}, d \in {1, 21845, 43690}}
ASSUME \A n \in {1, 2, 3, 5, 7, 10, 16} : \A h \in StaticHashes : Cardinality({i \in 0..(n - 1) : Static(n, h, i)}) = 1
===============================================================================
