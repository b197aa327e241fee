-------------------------------- MODULE Syslog --------------------------------
(* The syslog server: connections carry messages in order; each becomes the     *)
(* envelope it describes or counts as invalid, and each envelope is handed to   *)
(* the cache once.                                                              *)
(*                                                                              *)
(* A message is structural: proc is the process id's parts between slashes,     *)
(* brackets around them removed; a parameter's value is its text with what it   *)
(* is as an unsigned, signed and floating number ("-": it is none).             *)
EXTENDS Integers, Sequences, TLC

VARIABLES
    todo,            \* connection -> messages not yet dealt with
    stored, lost, invalid   \* envelopes taken by the cache, refused by it, messages no envelope is made of
svars == <<todo, stored, lost, invalid>>

NoEnv == [kind |-> "invalid"]
Missing == [has |-> FALSE, text |-> "", u |-> "-", i |-> "-", f |-> "-"]
Par(x, n) == IF n \in DOMAIN x.pars THEN x.pars[n] ELSE Missing
Env(m, kind, a, b, c) == [kind |-> kind, src |-> m.app, ts |-> m.ts,
                          inst |-> IF m.proc = <<>> THEN "" ELSE m.proc[Len(m.proc)],
                          a |-> a, b |-> b, c |-> c, more |-> FALSE]
Elem(m, x) ==
    CASE x.kind = "counter" -> LET d == Par(x, "delta").u
                                   t == Par(x, "total").u
                               IN IF d = "-" \/ t = "-" THEN NoEnv ELSE Env(m, "counter", Par(x, "name").text, d, t)
      [] x.kind = "gauge"   -> LET v == Par(x, "value").f
                               IN IF v = "-" \/ ~Par(x, "unit").has THEN NoEnv ELSE Env(m, "gauge", Par(x, "name").text, Par(x, "unit").text, v)
      [] x.kind = "timer"   -> LET s == Par(x, "start").i
                                   e == Par(x, "stop").i
                               IN IF s = "-" \/ e = "-" THEN NoEnv ELSE Env(m, "timer", Par(x, "name").text, s, e)
      [] x.kind = "event"   -> Env(m, "event", Par(x, "title").text, Par(x, "body").text, "")
      [] OTHER -> NoEnv
(* Of several structured data elements one is taken; which, is not fixed. *)
Outcomes(m) ==
    IF m.broken \/ m.app = "" \/ m.ts = "" THEN {NoEnv}
    ELSE IF m.sd # <<>> THEN {Elem(m, m.sd[k]) : k \in DOMAIN m.sd}
    ELSE {Env(m, "log", m.text, IF m.pri = 11 THEN "ERR" ELSE "OUT", IF m.proc = <<>> THEN "" ELSE m.proc[1])}

SInit(conns) == todo = conns /\ stored = 0 /\ lost = 0 /\ invalid = 0
Next1(c) == todo' = [todo EXCEPT ![c] = Tail(@)]
Skip(c) == /\ todo[c] # <<>> /\ NoEnv \in Outcomes(Head(todo[c])) /\ Next1(c)
           /\ invalid' = invalid + 1 /\ UNCHANGED <<stored, lost>>
Store(c, e, ok) == /\ todo[c] # <<>> /\ e # NoEnv /\ e \in Outcomes(Head(todo[c])) /\ Next1(c)
                   /\ IF ok THEN stored' = stored + 1 /\ UNCHANGED lost ELSE lost' = lost + 1 /\ UNCHANGED stored
                   /\ UNCHANGED invalid
Finished(ing, inv) == (\A c \in DOMAIN todo : todo[c] = <<>>) /\ ing = stored /\ inv = invalid
===============================================================================
