------------------------------- MODULE GenOAuth -------------------------------
(* All interleavings of N concurrent calls (Emitting = FALSE), or all sequences *)
(* of N calls one after another (Emitting = TRUE).                              *)
(* Torn = TRUE adds the step the lock prevents: looking at the token and taking *)
(* it are two steps, and another call clears it in between.                     *)
EXTENDS OAuth, Json
CONSTANTS N, Emitting, Torn
VARIABLES nstart, ntok, hist
gvars == <<tok, fetching, calls, bad, nstart, ntok, hist>>
GInit == OInit /\ nstart = 0 /\ ntok = 0 /\ hist = <<>>
H(r) == hist' = IF Emitting THEN Append(hist, r) ELSE hist
Idle == hist' = hist
GStart == /\ nstart < N /\ (Emitting => DOMAIN calls = {})
          /\ nstart' = nstart + 1 /\ UNCHANGED ntok
          /\ \E p \in BOOLEAN : Start(nstart + 1, p) /\ H([op |-> "do", pre |-> p])
GTake == \E i \in DOMAIN calls : Take(i) /\ Idle /\ UNCHANGED <<nstart, ntok>>
GTorn == /\ Torn /\ UNCHANGED <<tok, fetching, bad, nstart, ntok, hist>>
         /\ \E i \in DOMAIN calls, j \in DOMAIN calls :
               /\ i # j /\ calls[i].st = "new" /\ calls[j].st = "cleared" /\ tok = "" /\ fetching = 0
               /\ Set(i, [calls[i] EXCEPT !.st = "armed"])
GFetch == \E i \in DOMAIN calls : Fetch(i) /\ Idle /\ UNCHANGED <<nstart, ntok>>
GFetched == /\ ntok' = ntok + 1 /\ UNCHANGED nstart
            /\ \/ Fetched("T" \o ToString(ntok + 1)) /\ H([op |-> "tok", r |-> "ok"])
               \/ \E r \in {"500", "json", "net"} : NotFetched /\ H([op |-> "tok", r |-> r])
GSend == \E i \in DOMAIN calls : Send(i, IF calls[i].st = "pre" THEN "P" ELSE calls[i].tok) /\ Idle /\ UNCHANGED <<nstart, ntok>>
GAnswer == \E i \in DOMAIN calls :
            /\ UNCHANGED <<nstart, ntok>>
            /\ \/ \E s \in {200, 299} : Answer(i, TRUE) /\ H([op |-> "api", s |-> s])
               \/ \E s \in {199, 300, 401, 500} : Answer(i, FALSE) /\ H([op |-> "api", s |-> s])
               \/ NoAnswer(i) /\ H([op |-> "api", s |-> 0])
GClear == \E i \in DOMAIN calls : Clear(i) /\ Idle /\ UNCHANGED <<nstart, ntok>>
GReturn == \E i \in DOMAIN calls, e \in BOOLEAN : Return(i, e) /\ Idle /\ UNCHANGED <<nstart, ntok>>
GNext == GStart \/ GTake \/ GTorn \/ GFetch \/ GFetched \/ GSend \/ GAnswer \/ GClear \/ GReturn
GSpec == GInit /\ [][GNext]_gvars
Emit == (Emitting /\ nstart = N /\ DOMAIN calls' = {}) => PrintT("SCN " \o ToJson(hist))
===============================================================================
