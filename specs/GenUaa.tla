--------------------------------- MODULE GenUaa -------------------------------
(* How a reader goes about it, with concurrent reads or one after another; the  *)
(* identity server rotates its keys, fails and lies.  Time is counted in ticks. *)
EXTENDS Uaa, Json
CONSTANTS Ops, W, MaxReads, Toks, Answers, Conc, Loose, Emitting
VARIABLES now, pc, ans, asks, accepted, shown, hist
gvars == <<keys, fetches, last, reads, owed, now, pc, ans, asks, accepted, shown, hist>>

Tok(k) == LET b == [kid |-> "a", signer |-> "k1", alg |-> "RS256", whole |-> TRUE, form |-> "ok", data |-> TRUE, fresh |-> TRUE, admin |-> FALSE] IN
    CASE k = "a1" -> b
      [] k = "a2" -> [b EXCEPT !.signer = "k2"]
      [] k = "b2" -> [b EXCEPT !.kid = "b", !.signer = "k2"]
      [] k = "b1" -> [b EXCEPT !.kid = "b", !.admin = TRUE]
      [] k = "admin" -> [b EXCEPT !.admin = TRUE]
      [] k = "expired" -> [b EXCEPT !.fresh = FALSE]
      [] k = "tampered" -> [b EXCEPT !.whole = FALSE]
      [] k = "none" -> [b EXCEPT !.alg = "none", !.signer = ""]
      [] k = "hs" -> [b EXCEPT !.alg = "HS256", !.signer = ""]
      [] k = "nokid" -> [b EXCEPT !.form = "nokid"]
      [] k = "broken" -> [b EXCEPT !.form = "broken"]
      [] k = "nodata" -> [b EXCEPT !.data = FALSE]
A1 == <<"a", "k1">>
A2 == <<"a", "k2">>
B2 == <<"b", "k2">>
Ans(k) == CASE k = "a1" -> [good |-> <<A1>>, ok |-> TRUE]
            [] k = "a2" -> [good |-> <<A2>>, ok |-> TRUE]
            [] k = "a1b2" -> [good |-> <<A1, B2>>, ok |-> TRUE]
            [] k = "twice" -> [good |-> <<A2, A1>>, ok |-> TRUE]
            [] k = "empty" -> [good |-> <<>>, ok |-> TRUE]
            [] k \in {"status", "lost", "json"} -> [good |-> <<>>, ok |-> FALSE]
            [] k \in {"novalue", "nopem", "notrsa", "nokey"} -> [good |-> <<B2>>, ok |-> FALSE]
Bearing == Len(hist)
GInit == UInit /\ now = 0 /\ pc = Nothing /\ ans = "a1" /\ asks = <<>> /\ accepted = {} /\ shown = {} /\ hist = <<>>
Put(i, s) == pc' = (i :> [s |-> s, f |-> 0]) @@ pc
WaitFor(i, f) == pc' = (i :> [s |-> "await", f |-> f]) @@ pc
Free == Bearing < Ops /\ (Conc \/ (reads = Nothing /\ Settled /\ pc = Nothing))
Quiet == UNCHANGED <<now, ans, asks, accepted, shown, hist>>
Op(o, k) == hist' = Append(hist, [o |-> o, k |-> k])
GRead == \E k \in Toks : /\ Free /\ Cardinality(DOMAIN reads) < MaxReads
            /\ Start(Bearing + 1, Tok(k), now) /\ Put(Bearing + 1, "look") /\ Op("read", k)
            /\ UNCHANGED <<now, ans, asks, accepted, shown>>
GRefresh == /\ Free /\ ~Conc /\ Put(Bearing + 1, "refresh") /\ Op("refresh", "") /\ UNCHANGED <<uvars, now, ans, asks, accepted, shown>>
GSet == \E k \in Answers : /\ Free /\ k # ans /\ ans' = k /\ Op("set", k) /\ UNCHANGED <<uvars, now, pc, asks, accepted, shown>>
GWait == Free /\ now' = now + W + 1 /\ Op("wait", "") /\ UNCHANGED <<uvars, pc, ans, asks, accepted, shown>>
GFirst(i) == /\ i \in DOMAIN reads /\ pc[i].s = "look" /\ Quiet
             /\ IF ~Signed(reads[i].tok) THEN Put(i, "done") /\ UNCHANGED uvars
                ELSE IF reads[i].tok.kid \in DOMAIN keys THEN Look(i) /\ Put(i, "done")
                ELSE Put(i, "refresh") /\ UNCHANGED uvars
Next(i) == IF i \in DOMAIN reads THEN "again" ELSE "over"
GCheck(i) == /\ pc[i].s = "refresh" /\ UNCHANGED uvars /\ Quiet
             /\ Put(i, IF MayAsk(now, W) THEN "ask" ELSE Next(i))
(* As it should be, the claim to ask is made only if nobody else has made it since. *)
GAsk(i) == /\ pc[i].s = "ask" /\ UNCHANGED <<now, ans, accepted, shown, hist>>
           /\ IF Loose THEN /\ last' = now /\ fetches' = Append(fetches, [st |-> "asked", good |-> <<>>, ok |-> FALSE, n |-> 0, old |-> {}])
                            /\ UNCHANGED <<keys, reads, owed>> /\ asks' = Append(asks, now) /\ WaitFor(i, Len(fetches) + 1)
              ELSE IF MayAsk(now, W) THEN Ask(now, W) /\ asks' = Append(asks, now) /\ WaitFor(i, Len(fetches) + 1)
              ELSE Put(i, Next(i)) /\ UNCHANGED <<uvars, asks>>
GAnswer(f) == /\ Answer(f, Ans(ans).good, Ans(ans).ok) /\ shown' = shown \cup {Ans(ans).good[k] : k \in DOMAIN Ans(ans).good}
              /\ UNCHANGED <<now, pc, ans, asks, accepted, hist>>
GSettle(f) == Settling(f) /\ UNCHANGED pc /\ Quiet
GAwait(i) == /\ fetches[pc[i].f].st = "done" /\ Put(i, Next(i)) /\ UNCHANGED uvars /\ Quiet
GAgain(i) == pc[i].s = "again" /\ Look(i) /\ Put(i, "done") /\ Quiet
Drop(i) == pc' = [x \in DOMAIN pc \ {i} |-> pc[x]]
GVerdict(i) == /\ pc[i].s = "done" /\ UNCHANGED <<now, ans, asks, shown, hist>>
               /\ LET r == reads[i] ok == Genuine(r.tok, r.key) IN
                    /\ Verdict(i, ok, r.tok.admin, now, W)
                    /\ accepted' = IF ok THEN accepted \cup {<<r.tok.kid, r.key>>} ELSE accepted
                    /\ IF owed' > owed THEN Put(i, "refresh") ELSE Drop(i)
GOver(i) == pc[i].s = "over" /\ Drop(i) /\ UNCHANGED uvars /\ Quiet
GNext == \/ GRead \/ GRefresh \/ GSet \/ GWait
         \/ \E i \in DOMAIN pc : IF pc[i].s = "await" THEN GAwait(i)
                                 ELSE GFirst(i) \/ GCheck(i) \/ GAsk(i) \/ GAgain(i) \/ GVerdict(i) \/ GOver(i)
         \/ \E f \in DOMAIN fetches : GAnswer(f) \/ GSettle(f)
GSpec == GInit /\ [][GNext]_gvars
Throttled == \A k \in 2..Len(asks) : asks[k] - asks[k-1] >= W
OnlyPublished == accepted \subseteq shown
MapOf(s) == [x \in {s[k][1] : k \in DOMAIN s} |-> s[CHOOSE k \in DOMAIN s : s[k][1] = x /\ \A j \in DOMAIN s : s[j][1] = x => j <= k][2]]
(* Asked one at a time, exactly what was published when last asked is known. *)
Current == (~Conc /\ fetches # <<>> /\ Settled /\ fetches[Len(fetches)].ok) => keys = MapOf(fetches[Len(fetches)].good)
(* No read is left hanging, and every debt is paid or excused by the interval. *)
Finishes == (~ENABLED GNext) => reads = Nothing /\ Settled
View == <<keys, fetches, last, reads, owed, now, pc, ans>>
Short == <<keys, last, reads, owed, now - last > W, pc, ans, IF Settled THEN 0 ELSE 1, Bearing, IF hist = <<>> THEN "" ELSE hist[Len(hist)]>>
Emit == (Emitting /\ Bearing = Ops - 1 /\ Len(hist') = Ops /\ hist'[Ops].o \in {"read", "refresh"}) => PrintT("SCN " \o ToJson(hist'))
===============================================================================
