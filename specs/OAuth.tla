--------------------------------- MODULE OAuth --------------------------------
(* The HTTP client that authorises requests with a token it fetches once and    *)
(* keeps until a request comes back unsuccessful.  Calls run concurrently; one  *)
(* of them at a time may fetch.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    tok,       \* the kept token, "" if none
    fetching,  \* the call that is fetching, 0 if none
    calls,     \* call -> [st, tok]
    bad        \* tokens of unsuccessful requests whose call has returned
ovars == <<tok, fetching, calls, bad>>

Empty == [x \in {} |-> 0]
OInit == tok = "" /\ fetching = 0 /\ calls = Empty /\ bad = {}

Set(i, r) == calls' = (i :> r) @@ calls

(* known: tokens that had been rejected, to a caller's knowledge, when it started. *)
Start(i, pre) == /\ i \notin DOMAIN calls
                 /\ Set(i, [st |-> IF pre THEN "pre" ELSE "new", tok |-> "", known |-> bad])
                 /\ UNCHANGED <<tok, fetching, bad>>
(* Take the kept token. *)
Take(i) == /\ calls[i].st = "new" /\ fetching = 0 /\ tok # ""
           /\ Set(i, [calls[i] EXCEPT !.st = "armed", !.tok = tok])
           /\ UNCHANGED <<tok, fetching, bad>>
Fetch(i) == /\ calls[i].st = "new" /\ fetching = 0 /\ tok = ""
            /\ fetching' = i /\ Set(i, [calls[i] EXCEPT !.st = "fetch"])
            /\ UNCHANGED <<tok, bad>>
Fetched(t) == /\ fetching # 0 /\ tok' = t /\ fetching' = 0
              /\ Set(fetching, [calls[fetching] EXCEPT !.st = "armed", !.tok = t])
              /\ UNCHANGED bad
NotFetched == /\ fetching # 0 /\ fetching' = 0
              /\ Set(fetching, [calls[fetching] EXCEPT !.st = "failed"])
              /\ UNCHANGED <<tok, bad>>
Send(i, auth) == /\ calls[i].st \in {"armed", "pre"}
                 /\ (calls[i].st = "armed" => auth = calls[i].tok)
                 /\ Set(i, [calls[i] EXCEPT !.st = IF @ = "armed" THEN "sent" ELSE "present", !.tok = auth])
                 /\ UNCHANGED <<tok, fetching, bad>>
(* ok: an answer with a status of 2xx *)
Answer(i, ok) == /\ calls[i].st \in {"sent", "present"}
                 /\ Set(i, [calls[i] EXCEPT !.st = IF @ = "sent" /\ ~ok THEN "clear" ELSE "answered"])
                 /\ UNCHANGED <<tok, fetching, bad>>
NoAnswer(i) == /\ calls[i].st \in {"sent", "present"}
               /\ Set(i, [calls[i] EXCEPT !.st = "failed"])
               /\ UNCHANGED <<tok, fetching, bad>>
Clear(i) == /\ calls[i].st = "clear"
            /\ tok' = "" /\ Set(i, [calls[i] EXCEPT !.st = "cleared"])
            /\ UNCHANGED <<fetching, bad>>
Return(i, err) == /\ calls[i].st \in (IF err THEN {"failed"} ELSE {"answered", "cleared"})
                  /\ calls' = [x \in DOMAIN calls \ {i} |-> calls[x]]
                  /\ bad' = IF calls[i].st = "cleared" THEN bad \cup {calls[i].tok} ELSE bad
                  /\ UNCHANGED <<tok, fetching>>

NeverBare == \A i \in DOMAIN calls : calls[i].st \in {"armed", "sent"} => calls[i].tok # ""
(* A call that starts after another one returned unsuccessful does not use its token. *)
NeverStale == \A i \in DOMAIN calls : calls[i].st \in {"armed", "sent"} => calls[i].tok \notin calls[i].known
===============================================================================
