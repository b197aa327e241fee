------------------------------- MODULE TraceKit -------------------------------
(* What every trace specification shares.  The trace file holds one episode per *)
(* line; every episode is an initial state of its own, so one TLC run validates *)
(* them all, and nondeterminism of one episode does not multiply with another.  *)
(* TLC register i holds the furthest position reached in episode i; an episode  *)
(* is accepted iff that is Len(ev) + 1.                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Eps == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ep, l
kvars == <<ep, l>>

ASSUME \A i \in DOMAIN Eps : TLCSet(i, 0)

KInit == ep \in DOMAIN Eps /\ l = 1

Evs  == Eps[ep].ev
Cfg  == Eps[ep].cfg
Ev   == Evs[l]
More == l <= Len(Evs)

(* Consume one event of kind o. *)
Step(o) == More /\ Ev.op = o /\ l' = l + 1 /\ UNCHANGED ep

(* A step of the specification that was not logged. *)
Silent == UNCHANGED kvars

(* CONSTRAINT *)
Mark == IF l > TLCGet(ep) THEN TLCSet(ep, l) ELSE TRUE

(* POSTCONDITION *)
Report == \A i \in DOMAIN Eps : PrintT(<<"EP", i, TLCGet(i), Len(Eps[i].ev) + 1>>)

Range(s) == {s[i] : i \in DOMAIN s}
===============================================================================
