-------------------------------- MODULE Agent ---------------------------------
(* The ranges a node was told to serve: a bag, changed and listed concurrently. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    bag,    \* range -> how often (> 0)
    pend,   \* call -> [kind, r, done, got]
    held    \* list -> what it answered
avars == <<bag, pend, held>>
None == [x \in {} |-> 0]
AInit == bag = None /\ pend = None /\ held = None
Plus(b, r) == IF r \in DOMAIN b THEN [b EXCEPT ![r] = @ + 1] ELSE (r :> 1) @@ b
Minus(b, r) == IF r \notin DOMAIN b THEN b
               ELSE IF b[r] = 1 THEN [x \in DOMAIN b \ {r} |-> b[x]] ELSE [b EXCEPT ![r] = @ - 1]
RECURSIVE BagOf(_)
BagOf(s) == IF s = <<>> THEN None ELSE Plus(BagOf(Tail(s)), Head(s))

Start(i, kind, r) == /\ i \notin DOMAIN pend
                     /\ pend' = (i :> [kind |-> kind, r |-> r, done |-> FALSE, got |-> None]) @@ pend
                     /\ UNCHANGED <<bag, held>>
(* The moment the call takes effect. *)
Do(i) == /\ ~pend[i].done
         /\ bag' = CASE pend[i].kind = "add" -> Plus(bag, pend[i].r)
                     [] pend[i].kind = "remove" -> Minus(bag, pend[i].r)
                     [] OTHER -> bag
         /\ pend' = [pend EXCEPT ![i].done = TRUE, ![i].got = bag]
         /\ UNCHANGED held
End(i) == /\ i \in DOMAIN pend /\ pend[i].done
          /\ pend' = [x \in DOMAIN pend \ {i} |-> pend[x]]
EndChange(i) == End(i) /\ pend[i].kind # "list" /\ UNCHANGED <<bag, held>>
EndList(i, b) == /\ End(i) /\ pend[i].kind = "list" /\ b = pend[i].got
                 /\ held' = (i :> b) @@ held /\ UNCHANGED bag
(* An answer, once given, stays what it was. *)
Again(i, b) == held[i] = b /\ UNCHANGED avars

Positive == \A r \in DOMAIN bag : bag[r] > 0
===============================================================================
