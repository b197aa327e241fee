------------------------------- MODULE GenAgent -------------------------------
EXTENDS Agent, Json
CONSTANTS Rs, N, Emitting
VARIABLES n, hist
gvars == <<bag, pend, held, n, hist>>
GInit == AInit /\ n = 0 /\ hist = <<>>
GStart == /\ n < N /\ (Emitting => pend = None) /\ n' = n + 1
          /\ \E k \in {"add", "remove", "list"}, r \in Rs :
                /\ (k = "list" => r = CHOOSE x \in Rs : TRUE)
                /\ Start(n + 1, k, r)
                /\ hist' = IF Emitting THEN Append(hist, [op |-> k, r |-> r]) ELSE hist
GDo == \E i \in DOMAIN pend : Do(i) /\ UNCHANGED <<n, hist>>
GEnd == \E i \in DOMAIN pend : (EndChange(i) \/ EndList(i, pend[i].got)) /\ UNCHANGED <<n, hist>>
GNext == GStart \/ GDo \/ GEnd
GSpec == GInit /\ [][GNext]_gvars
(* No more of a range than calls added it. *)
Bounded == \A r \in DOMAIN bag : bag[r] <= n
Emit == (Emitting /\ n = N /\ pend' = None) => PrintT("SCN " \o ToJson(hist))
===============================================================================
