---------------------------- MODULE TraceScheduler ----------------------------
EXTENDS Scheduler, TraceKit
tvars == <<held, view, told, down, lead, ep, l>>
TNodes == 1..Cfg.nodes
TInit == KInit /\ SInit(TNodes, [n \in TNodes |-> Range(Cfg.init[n])])
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
TFail    == Step("fail") /\ Fail(Ev.n)
TRecover == Step("recover") /\ Recover(Ev.n)
TForget  == Step("forget") /\ Forget(Ev.n)
TLeader  == Step("leader") /\ Leader(Ev.v)
TList    == Step("list") /\ IF Ev.ok THEN List(Ev.n, Range(Ev.rs)) ELSE NotListed(Ev.n)
TAdd     == Step("add") /\ Add(Ev.n, Ev.r)
TRemove  == Step("remove") /\ Remove(Ev.n, Ev.r)
TTell    == Step("tell") /\ Ev.known /\ Tell(Ev.n, Range(Ev.t))
(* Some rounds have passed since the last change.  parts: the ranges in use, in order. *)
TSettled == /\ Step("settled") /\ UNCHANGED svars
            /\ Ev.leader => /\ Partition(Ev.parts) /\ Len(Ev.parts) = Cfg.count
                            /\ Assigned({Ev.parts[k].r : k \in DOMAIN Ev.parts}, Cfg.factor)
                            /\ Informed
TNext == TFail \/ TRecover \/ TForget \/ TLeader \/ TList \/ TAdd \/ TRemove \/ TTell \/ TSettled
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
