---------------------------------- MODULE Uaa ---------------------------------
(* The reader of tokens.  It keeps the signing keys the identity server         *)
(* published when last asked, asks again when a token names a key it does not   *)
(* know or bears a signature that does not fit, but not more often than once    *)
(* per interval, and accepts a token only if it is genuine and current.         *)
(* A token: kid the key it names, signer the key it was really signed with      *)
(* ("" by none), alg, whole (not altered since), form ("ok", "broken" or        *)
(* "nokid"), data (its payload can be read), fresh (not expired), admin.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    keys,     \* kid -> key
    fetches,  \* sequence of [st, good, ok, n, old]
    last,     \* when the server was last asked, -1 if never
    reads,    \* read -> [tok, key, since, t, sure]
    owed      \* 0, or the fetch that a bad signature obliged to ask for (one since its read began)
uvars == <<keys, fetches, last, reads, owed>>

Nothing == [x \in {} |-> 0]
UInit == keys = Nothing /\ fetches = <<>> /\ last = -1 /\ reads = Nothing /\ owed = 0

MayAsk(t, w) == last = -1 \/ t - last >= w
Ask(t, w) == /\ MayAsk(t, w) /\ last' = t
             /\ fetches' = Append(fetches, [st |-> "asked", good |-> <<>>, ok |-> FALSE, n |-> 0, old |-> {}])
             /\ UNCHANGED <<keys, reads, owed>>
(* good: the usable keys at the head of the answer; ok: nothing else is in it, nor was it an error. *)
Answer(f, good, ok) == /\ fetches[f].st = "asked"
                       /\ fetches' = [fetches EXCEPT ![f].st = "answered", ![f].good = good, ![f].ok = ok]
                       /\ UNCHANGED <<keys, last, reads, owed>>
Kids(f) == {fetches[f].good[k][1] : k \in DOMAIN fetches[f].good}
(* What an answer brings is taken over key by key, then what it no longer lists is forgotten. *)
Begin(f) == /\ fetches[f].st = "answered"
            /\ fetches' = [fetches EXCEPT ![f].st = "taking", ![f].old = IF fetches[f].ok THEN DOMAIN keys \ Kids(f) ELSE {}]
            /\ UNCHANGED <<keys, last, reads, owed>>
Take(f) == /\ fetches[f].st = "taking" /\ fetches[f].n < Len(fetches[f].good)
           /\ LET k == fetches[f].good[fetches[f].n + 1] IN keys' = (k[1] :> k[2]) @@ keys
           /\ fetches' = [fetches EXCEPT ![f].n = @ + 1]
           /\ UNCHANGED <<last, reads, owed>>
Forget(f) == /\ fetches[f].st = "taking" /\ fetches[f].n = Len(fetches[f].good) /\ fetches[f].old # {}
             /\ LET k == CHOOSE k \in fetches[f].old : TRUE IN
                  /\ keys' = [x \in DOMAIN keys \ {k} |-> keys[x]]
                  /\ fetches' = [fetches EXCEPT ![f].old = @ \ {k}]
             /\ UNCHANGED <<last, reads, owed>>
(* Of an answer that breaks off, any part of the good head may be taken over. *)
Done(f) == /\ fetches[f].st = "taking"
           /\ fetches[f].ok => fetches[f].n = Len(fetches[f].good) /\ fetches[f].old = {}
           /\ fetches' = [fetches EXCEPT ![f].st = "done"]
           /\ UNCHANGED <<keys, last, reads, owed>>
Settling(f) == Begin(f) \/ Take(f) \/ Forget(f) \/ Done(f)

Start(i, tok, t) == /\ i \notin DOMAIN reads
                 /\ reads' = (i :> [tok |-> tok, key |-> "?", since |-> Len(fetches), t |-> t, sure |-> FALSE]) @@ reads
                 /\ UNCHANGED <<keys, fetches, last, owed>>
Signed(tok) == tok.form = "ok" /\ tok.alg = "RS256"
(* sure: the server has been asked, and its answer taken over, since the read began. *)
Look(i) == /\ reads[i].key = "?" /\ Signed(reads[i].tok)
           /\ reads' = [reads EXCEPT ![i].key = IF @ = "?" /\ reads[i].tok.kid \in DOMAIN keys THEN keys[reads[i].tok.kid] ELSE "none",
                                     ![i].sure = \E f \in (reads[i].since + 1)..Len(fetches) : fetches[f].st = "done"]
           /\ UNCHANGED <<keys, fetches, last, owed>>
Genuine(tok, key) == Signed(tok) /\ tok.whole /\ tok.data /\ tok.fresh /\ key \notin {"?", "none"} /\ tok.signer = key
(* w: the time after which asking again must not be put off any more *)
Verdict(i, ok, admin, t, w) ==
    LET r == reads[i] tok == r.tok unfit == tok.signer # r.key \/ ~tok.whole IN
    /\ IF ok THEN Genuine(tok, r.key) /\ admin = tok.admin
       ELSE \/ ~Signed(tok) \/ ~tok.fresh \/ ~tok.data
            \/ r.key = "none" /\ (r.sure \/ ~MayAsk(r.t, w))
            \/ r.key \notin {"?", "none"} /\ unfit
    /\ owed' = IF ~ok /\ Signed(tok) /\ tok.fresh /\ tok.data /\ r.key \notin {"?", "none"} /\ unfit /\ MayAsk(t, w) THEN r.since + 1 ELSE owed
    /\ reads' = [x \in DOMAIN reads \ {i} |-> reads[x]]
    /\ UNCHANGED <<keys, fetches, last>>
Settled == \A f \in DOMAIN fetches : fetches[f].st = "done"
(* Everything has come to rest. *)
Rest == /\ Settled /\ (owed # 0 => Len(fetches) >= owed)
        /\ owed' = 0 /\ UNCHANGED <<keys, fetches, last, reads>>
===============================================================================
