------------------------------- MODULE GenWindow ------------------------------
EXTENDS Window, Json
CONSTANTS MaxK, Emitting
VARIABLE hist
gvars == <<wc, k, wph, got, hist>>
GInit == WinInit([interval |-> 2, width |-> 3]) /\ hist = <<>>
GNext == \/ /\ k < MaxK /\ UNCHANGED hist
            /\ \E n \in 0..2 : WinWalk(k * 2, 3, [i \in 1..n |-> 10 * k + i])
         \/ \E r \in BOOLEAN : WinVisit(got, r) /\ hist' = Append(hist, [op |-> "win", n |-> Len(got), ret |-> r])
         \/ WinDone /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_gvars
Emit == (Emitting /\ wph' = "over") => PrintT("SCN " \o ToJson(hist))
NoGap == wph = "walk" /\ k > 0 => k * wc.interval - (k - 1) * wc.interval = wc.interval
===============================================================================
