----------------------------- MODULE GenLogStore ------------------------------
(* Bounded instance: exhaustive check of the design, and one scenario per       *)
(* transition of its state graph (hist is hidden by the VIEW).                  *)
EXTENDS LogStore, Json
CONSTANTS Srcs, Ts, Cap, MaxPuts, MaxPrunes, Emitting

VARIABLES puts, prunes, hist
gvars == <<max, db, exp, newest, expTotal, puts, prunes, hist>>

(* Identities are forgotten in the view except for their order, which db keeps. *)
View == <<[s \in DOMAIN db |-> [i \in DOMAIN db[s] |-> <<db[s][i].t, db[s][i].id>>]], exp, newest, puts, prunes>>

GInit == SInit(Cap) /\ puts = 0 /\ prunes = 0 /\ hist = <<>>

GPut == \E s \in Srcs, t \in Ts :
    /\ puts < MaxPuts
    /\ Put(s, [id |-> puts + 1, t |-> t, ty |-> "LOG", nm |-> {}])
    /\ puts' = puts + 1
    /\ hist' = Append(hist, [op |-> "put", src |-> s, t |-> t])
    /\ UNCHANGED prunes
GPrune == \E n \in 1..3 :
    /\ prunes < MaxPrunes /\ DOMAIN db # {}
    /\ Prune(n)
    /\ prunes' = prunes + 1
    /\ hist' = Append(hist, [op |-> "prune", n |-> n])
    /\ UNCHANGED puts
GNext == GPut \/ GPrune
GSpec == GInit /\ [][GNext]_gvars

(* ACTION_CONSTRAINT: print every transition as a scenario. *)
Emit == Emitting => PrintT("SCN " \o ToJson(hist'))

(* Conservation: everything put is held or counted as evicted. *)
Conserved == puts = Total + expTotal
===============================================================================
