------------------------------ MODULE TraceReader -----------------------------
(* A read that walks page by page: either it fails, or it is what one unlimited *)
(* read would have returned.  It has to succeed if the failures underneath are  *)
(* transient: fewer than five in a row.                                         *)
EXTENDS TraceKit, FiniteSets
CONSTANT Patience
tvars == <<ep, l>>
TInit == KInit

Want == SelectSeq(Cfg.db, LAMBDA e : e.t >= Ev.st /\ e.t < Ev.en
                                   /\ (Ev.types = <<>> \/ e.ty \in Range(Ev.types)))
Hopeless == \E i \in 1..Len(Cfg.fails) :
    i + Patience - 1 <= Len(Cfg.fails) /\ \A j \in i..(i + Patience - 1) : Cfg.fails[j]

TResult == /\ Step("result")
           /\ IF Ev.err THEN Hopeless \/ Cfg.expired
              ELSE ~Cfg.expired /\ Ev.res = [i \in DOMAIN Want |-> Want[i].id]
TSpec == TInit /\ [][TResult]_tvars
===============================================================================
