------------------------------- MODULE TraceUaa -------------------------------
EXTENDS Uaa, TraceKit
(* Times are milliseconds.  The interval is judged with a tolerance of half of it. *)
VARIABLES refr, claimed   \* claimed: askings under way that have not been seen yet
tvars == <<keys, fetches, last, reads, owed, refr, claimed, ep, l>>
Least == Cfg.w \div 2
Most  == Cfg.w + Cfg.w \div 2
TInit == KInit /\ UInit /\ refr = 0 /\ claimed = 0
TRead == Step("read") /\ Start(Ev.i, Ev.tok, Ev.t) /\ UNCHANGED <<refr, claimed>>
(* The next askings to be seen before everything comes to rest. *)
RECURSIVE Coming(_)
Coming(p) == IF p > Len(Evs) THEN <<>> ELSE IF Evs[p].op = "rest" THEN <<>>
             ELSE IF Evs[p].op = "ask" THEN <<Evs[p].t>> \o Coming(p + 1) ELSE Coming(p + 1)
TClaim == /\ More /\ Silent /\ claimed < Len(Coming(l)) /\ Ask(Coming(l)[claimed + 1], Least)
          /\ claimed' = claimed + 1 /\ UNCHANGED refr
TAsk  == /\ Step("ask") /\ Ev.proper /\ UNCHANGED refr
         /\ IF claimed > 0 THEN claimed' = claimed - 1 /\ UNCHANGED uvars ELSE Ask(Ev.t, Least) /\ UNCHANGED claimed
TAnswer == Step("answer") /\ Answer(Ev.f, Ev.good, Ev.ok) /\ UNCHANGED <<refr, claimed>>
TVerdict == Step("verdict") /\ Ev.same /\ Verdict(Ev.i, Ev.ok, Ev.admin, Ev.t, Most) /\ UNCHANGED <<refr, claimed>>
(* Asking for a refresh outright, alone. *)
TRefresh == Step("refresh") /\ refr' = Len(fetches) + 1 /\ UNCHANGED <<uvars, claimed>>
TRefreshed == /\ Step("refreshed") /\ Settled /\ refr' = 0
              /\ IF Len(fetches) >= refr THEN Ev.err = ~fetches[Len(fetches)].ok ELSE ~Ev.err /\ ~MayAsk(Ev.t, Most)
              /\ UNCHANGED <<uvars, claimed>>
TRest == Step("rest") /\ Rest /\ UNCHANGED <<refr, claimed>>
TEnd  == Step("end") /\ Settled /\ Ev.held = 0 /\ UNCHANGED <<uvars, refr, claimed>>
TSilent == More /\ Silent /\ UNCHANGED <<refr, claimed>> /\ ((\E f \in DOMAIN fetches : Settling(f)) \/ \E i \in DOMAIN reads : Look(i))
TNext == TRead \/ TClaim \/ TAsk \/ TAnswer \/ TVerdict \/ TRefresh \/ TRefreshed \/ TRest \/ TEnd \/ TSilent
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
