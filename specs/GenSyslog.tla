------------------------------- MODULE GenSyslog ------------------------------
(* All ways in which a few connections with a few messages each are dealt with, *)
(* over one representative of every kind of message.                            *)
EXTENDS Syslog, Json
CONSTANTS Kinds, Conns, PerConn, Oks, Emitting
Log(v) == [has |-> TRUE, text |-> v, u |-> v, i |-> v, f |-> v]
Bad == [has |-> TRUE, text |-> "x", u |-> "-", i |-> "-", f |-> "-"]
None == [x \in {} |-> Missing]
Base == [broken |-> FALSE, pri |-> 14, app |-> "a", ts |-> "1", proc |-> <<"APP", "1">>, sd |-> <<>>, text |-> "t"]
Cnt == [kind |-> "counter", pars |-> [delta |-> Log("1"), total |-> Log("2")]]
Msg(k) == CASE k = "log" -> Base
            [] k = "err" -> [Base EXCEPT !.pri = 11]
            [] k = "noproc" -> [Base EXCEPT !.proc = <<>>]
            [] k = "noapp" -> [Base EXCEPT !.app = ""]
            [] k = "nots" -> [Base EXCEPT !.ts = ""]
            [] k = "nomsg" -> [Base EXCEPT !.text = ""]
            [] k = "counter" -> [Base EXCEPT !.sd = <<Cnt>>]
            [] k = "badcounter" -> [Base EXCEPT !.sd = <<[Cnt EXCEPT !.pars.delta = Bad]>>]
            [] k = "gauge" -> [Base EXCEPT !.sd = <<[kind |-> "gauge", pars |-> [value |-> Log("1"), unit |-> Log("u")]]>>]
            [] k = "badgauge" -> [Base EXCEPT !.sd = <<[kind |-> "gauge", pars |-> [value |-> Log("1")]]>>]
            [] k = "timer" -> [Base EXCEPT !.sd = <<[kind |-> "timer", pars |-> [start |-> Log("1"), stop |-> Log("1")]]>>]
            [] k = "badtimer" -> [Base EXCEPT !.sd = <<[kind |-> "timer", pars |-> [start |-> Log("1")]]>>]
            [] k = "event" -> [Base EXCEPT !.sd = <<[kind |-> "event", pars |-> None]>>]
            [] k = "other" -> [Base EXCEPT !.sd = <<[kind |-> "other", pars |-> None]>>]
            [] k = "multi" -> [Base EXCEPT !.sd = <<Cnt, [kind |-> "other", pars |-> None]>>]
            [] k = "broken" -> [Base EXCEPT !.broken = TRUE]
VARIABLES plan, done
gvars == <<todo, stored, lost, invalid, plan, done>>
Plans == UNION {[1..n -> Kinds] : n \in 1..PerConn}
Fine(p) == \A i \in DOMAIN p : p[i] = "broken" => i = Len(p)
GInit == /\ plan \in [1..Conns -> {p \in Plans : Fine(p)}]
         /\ SInit([c \in 1..Conns |-> [i \in DOMAIN plan[c] |-> Msg(plan[c][i])]])
         /\ done = <<>>
Kind(c) == plan[c][Len(plan[c]) - Len(todo[c]) + 1]
GStep == \E c \in 1..Conns, ok \in Oks :
             /\ todo[c] # <<>> /\ done' = Append(done, [c |-> c, k |-> Kind(c), ok |-> ok]) /\ UNCHANGED plan
             /\ \/ Skip(c)
                \/ \E e \in Outcomes(Head(todo[c])) : Store(c, e, ok)
GSpec == GInit /\ [][GStep]_gvars
RECURSIVE Left(_)
Left(c) == IF c = 0 THEN 0 ELSE Len(todo[c]) + Left(c - 1)
RECURSIVE All(_)
All(c) == IF c = 0 THEN 0 ELSE Len(plan[c]) + All(c - 1)
(* Every message is exactly one of stored, refused, invalid and to come. *)
Accounted == stored + lost + invalid + Left(Conns) = All(Conns)
(* A message that has no envelope never keeps the next from being dealt with. *)
Flows == (~ENABLED GStep) => \A c \in 1..Conns : todo[c] = <<>>
View == <<plan, done>>
Emit == (Emitting /\ \A c \in 1..Conns : todo'[c] = <<>>) => PrintT("SCN " \o ToJson(done'))
===============================================================================
