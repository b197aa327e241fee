------------------------------ MODULE GenEgress -------------------------------
(* Histories of N operations on a cluster whose nodes change and fail.  An      *)
(* answer is checked against the history of the nodes' real meta: Young.        *)
EXTENDS Egress, Json
CONSTANTS Nodes, N, Period, Emitting
VARIABLES now, ver, down, past, ans, n, hist
gvars == <<cur, kept, now, ver, down, past, ans, n, hist>>
Real(k) == {[src |-> "s", v |-> ver[k]], [src |-> ToString(k), v |-> ver[k]]}
GInit == /\ EInit /\ now = 0 /\ ver = [k \in Nodes |-> 0] /\ down = {} /\ n = 0 /\ hist = <<>> /\ ans = [at |-> -1]
         /\ past = [k \in Nodes |-> {[v |-> 0, from |-> 0]}]
Op(r) == n < N /\ n' = n + 1 /\ hist' = IF Emitting THEN Append(hist, r) ELSE hist
GWait == /\ cur.op = "idle" /\ \E d \in {1, Period + 1} : now' = now + d /\ Op([op |-> "wait", d |-> d])
         /\ UNCHANGED <<cur, kept, ver, down, past, ans>>
GChange == /\ cur.op = "idle" /\ \E k \in Nodes : /\ ver' = [ver EXCEPT ![k] = @ + 1] /\ Op([op |-> "change", n |-> k])
                                                  /\ past' = [past EXCEPT ![k] = @ \cup {[v |-> ver[k] + 1, from |-> now]}]
           /\ UNCHANGED <<cur, kept, now, down, ans>>
GDown == /\ cur.op = "idle" /\ \E k \in Nodes : down' = (down \ {k}) \cup ({k} \ down) /\ Op([op |-> "flip", n |-> k])
         /\ UNCHANGED <<cur, kept, now, ver, past, ans>>
GMeta == /\ cur.op = "idle" /\ \E o \in BOOLEAN : MetaStart(o, now) /\ Op([op |-> "meta", only |-> o])
         /\ UNCHANGED <<now, ver, down, past, ans>>
GAsk == /\ cur.op = "meta" /\ UNCHANGED <<now, ver, down, past, ans, n, hist>>
        /\ ~\E k \in kept[Kind] : cur.t <= k.at + Period
        /\ \E k \in Targets(Nodes, 0) : MetaAsk(k, k \notin down, Real(k))
GEnd == /\ cur.op = "meta" /\ UNCHANGED <<now, ver, down, past, n, hist>>
        /\ \/ \E m \in {x.val : x \in kept[Kind]} : MetaCached(m, Period) /\ ans' = [at |-> now, val |-> m, only |-> cur.only]
           \/ \E m \in SUBSET All(cur.vals) : MetaFetched(m, now, Nodes, 0) /\ ans' = [at |-> now, val |-> m, only |-> cur.only]
           \/ MetaFailed(Nodes, 0) /\ UNCHANGED ans
GNext == GWait \/ GChange \/ GDown \/ GMeta \/ GAsk \/ GEnd
GSpec == GInit /\ [][GNext]_gvars
(* Whatever an answer says of a node was true of it at most one period before. *)
Young == (ans.at = now /\ ans.at >= 0) =>
           \A p \in ans.val : p.src # "s" =>
              \E k \in Nodes : /\ p.src = ToString(k)
                               /\ \E x \in past[k] : x.v = p.v /\ \A y \in past[k] : y.v = x.v + 1 => y.from >= ans.at - Period
Emit == (Emitting /\ n' = N /\ cur'.op = "idle") => PrintT("SCN " \o ToJson(hist'))
===============================================================================
