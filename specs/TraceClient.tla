------------------------------ MODULE TraceClient -----------------------------
EXTENDS Client, TraceKit
tvars == <<call, stage, base, open, ep, l>>
TInit == KInit /\ CInit

TCall == Step("call") /\ Call(Ev)
(* ctx: the request carries the caller's context; get: it is a GET without a body to the configured server *)
TAsk  == Step("req") /\ Ask(Ev.path, Ev.query) /\ Ev.ctx /\ Ev.get
TAns  == Step("ans") /\ Answer(Ev.st, Ev.body)
TClose == Step("close") /\ Close
(* Closing a body twice, or a body when the call is over, does no harm. *)
TRpc  == Step("rpc") /\ Rpc(Ev.args, Ev.ok)
TLost == Silent /\ RpcLost
(* same: the value is the one the server answered; zero: an error comes without a value *)
TRet  == Step("ret") /\ Return(Ev.err) /\ (IF Ev.err THEN Ev.zero ELSE Ev.same)
TNext == TCall \/ TAsk \/ TAns \/ TClose \/ TRpc \/ TLost \/ TRet
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
