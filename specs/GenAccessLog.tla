----------------------------- MODULE GenAccessLog -----------------------------
EXTENDS AccessLog, Json, FiniteSets
CONSTANTS Fwds, Queries, Vcaps, Paths, Reqs, Emitting
VARIABLES hist, lines, answers
gvars == <<open, logged, served, hist, lines, answers>>
GInit == AInit /\ hist = <<>> /\ lines = <<>> /\ answers = 0
N == Len(hist)
GCome == /\ N < Reqs
         /\ \E f \in Fwds, q \in Queries, v \in Vcaps, p \in Paths, bad \in BOOLEAN, no \in BOOLEAN :
               /\ Come(N + 1, N + 1)
               /\ hist' = Append(hist, [fwd |-> f, query |-> q, vcap |-> v, path |-> p, bad |-> bad, no |-> no])
         /\ UNCHANGED <<lines, answers>>
GLog == \E i \in DOMAIN open : Log(i) /\ lines' = Append(lines, i) /\ UNCHANGED <<hist, answers>>
GServe == \E i \in logged : ~hist[i].no /\ Serve(i) /\ UNCHANGED <<hist, lines, answers>>
GAnswer == \E i \in logged : Answer(i, hist[i].no) /\ answers' = answers + 1 /\ UNCHANGED <<hist, lines>>
GNext == GCome \/ GLog \/ GServe \/ GAnswer
GSpec == GInit /\ [][GNext]_gvars
(* One line per request, and every request is answered whether or not its line could be written. *)
OneLine == Cardinality({lines[k] : k \in DOMAIN lines}) = Len(lines)
AllDone == (~ENABLED GNext) => answers = Reqs /\ Len(lines) = Reqs /\ Quiet
Emit == (Emitting /\ N = Reqs - 1 /\ Len(hist') = Reqs) => PrintT("SCN " \o ToJson(hist'))
===============================================================================
