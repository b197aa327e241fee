-------------------------------- MODULE GenCapi -------------------------------
(* Sequences of calls, or concurrent ones, against a controller whose lists     *)
(* change and which fails.  Every list has one page here.  Time is in ticks.    *)
EXTENDS Capi, Json
CONSTANTS Ops, P, Toks, Srcs, Conc, Unlimited, Emitting
VARIABLES now, lists, mode, hist, asks, told
gvars == <<cache, calls, reqs, now, lists, mode, hist, asks, told>>
(* told: everything the controller ever listed, with the time of the answer *)
N == Len(hist)
GInit == CInit /\ now = 0 /\ lists = [t \in Toks |-> {}] /\ mode = "ok" /\ hist = <<>> /\ asks = <<>> /\ told = {}
Free == N < Ops /\ (Conc \/ calls = Nothing)
Op(o, t, s) == hist' = Append(hist, [o |-> o, tok |-> t, src |-> s])
GAuth == \E t \in Toks, s \in Srcs : Free /\ Begin(N + 1, "auth", t, s, now) /\ Op("auth", t, s) /\ UNCHANGED <<now, lists, mode, asks, told>>
GAvail == \E t \in Toks : Free /\ ~Conc /\ Begin(N + 1, "avail", t, "", now) /\ Op("avail", t, "") /\ UNCHANGED <<now, lists, mode, asks, told>>
GGrant == \E t \in Toks, s \in Srcs : /\ Free /\ Op(IF s \in lists[t] THEN "revoke" ELSE "grant", t, s)
             /\ lists' = [lists EXCEPT ![t] = IF s \in @ THEN @ \ {s} ELSE @ \cup {s}] /\ UNCHANGED <<cvars, now, mode, asks, told>>
GMode == \E m \in {"ok", "badapps", "badservices"} \ {mode} : Free /\ ~Conc /\ mode' = m /\ Op("mode", m, "") /\ UNCHANGED <<cvars, now, lists, asks, told>>
(* A list is as old as its last page. *)
GWait == /\ Free /\ calls = Nothing /\ now' = now + P + 1 /\ Op("wait", "", "")
         /\ cache' = Nothing /\ UNCHANGED <<calls, reqs, lists, mode, asks, told>>
GLoad(i) == /\ UNCHANGED <<now, lists, mode, hist, asks, told>>
            /\ IF Unlimited /\ calls[i].pc = "new" /\ calls[i].tok \in DOMAIN cache /\ calls[i].src \notin cache[calls[i].tok].ids
               THEN calls' = [calls EXCEPT ![i].pc = "ask"] /\ UNCHANGED <<cache, reqs>>
               ELSE Load(i, P + 1, P)
GRequest(i) == \E x \in DOMAIN calls[i].pages :
                  /\ x = "services" => calls[i].pages["apps"] = 0
                  /\ Request(i, x, 1) /\ asks' = IF x = "apps" /\ calls[i].kind = "auth" THEN Append(asks, <<calls[i].tok, now>>) ELSE asks
                  /\ UNCHANGED <<now, lists, mode, hist, told>>
GAnswer(r) == LET i == reqs[r].i x == reqs[r].list ok == mode # "bad" \o x IN
              /\ i \in DOMAIN calls /\ x \in calls[i].open
              /\ LET l == lists[calls[i].tok] IN
                   \E q \in {q \in [1..Cardinality(l) -> l] : \A a, b \in DOMAIN q : q[a] = q[b] => a = b} :
                     /\ Answer(r, IF x = "apps" /\ ok THEN q ELSE <<>>, FALSE, ok, now)
                     /\ told' = IF x = "apps" /\ ok THEN told \cup {<<calls[i].tok, s, now>> : s \in l} ELSE told
              /\ UNCHANGED <<now, lists, mode, hist, asks>>
GStore(i) == Store(i) /\ UNCHANGED <<now, lists, mode, hist, asks, told>>
GEnd(i) == /\ \/ \E ok \in BOOLEAN : Verdict(i, ok)
              \/ Available(i, Ids(calls[i]))
           /\ UNCHANGED <<now, lists, mode, hist, asks, told>>
GNext == GAuth \/ GAvail \/ GGrant \/ GMode \/ GWait
         \/ (\E i \in DOMAIN calls : GLoad(i) \/ GRequest(i) \/ GStore(i) \/ GEnd(i))
         \/ (\E r \in DOMAIN reqs : GAnswer(r))
GSpec == GInit /\ [][GNext]_gvars
(* Who is let through was listed for that very token, not longer ago than a period. *)
Listed == \A i \in DOMAIN calls : calls[i].pc = "yes" =>
             \E x \in told : x[1] = calls[i].tok /\ x[2] = calls[i].src /\ calls[i].t - x[3] <= P
(* One after another, no token makes more than the first and the permitted further requests within a period. *)
Limited == ~Conc => \A t \in Toks, k \in DOMAIN asks :
             Cardinality({j \in DOMAIN asks : asks[j][1] = t /\ asks[j][2] >= asks[k][2] /\ asks[j][2] - asks[k][2] <= P}) <= Retries + 1
Ends == (~ENABLED GNext) => calls = Nothing
View == <<cache, calls, lists, mode, now, N, IF N = 0 THEN 0 ELSE hist[N]>>
Emit == (Emitting /\ N = Ops - 1 /\ Len(hist') = Ops /\ hist'[Ops].o \in {"auth", "avail"}) => PrintT("SCN " \o ToJson(hist'))
===============================================================================
