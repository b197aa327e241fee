----------------------------- MODULE LocalReader ------------------------------
(* What a read request makes the node ask its own store.  Times are ranks of a  *)
(* sorted table of 64-bit times in which Zero is the time 0; Now stands for the *)
(* moment of the call.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Zero, Now

KindsOf(q) == {q.types[i] : i \in DOMAIN q.types}
Refused(q) == \/ q.end # Zero /\ q.start > q.end
              \/ q.limit > 1000 \/ q.limit < 0
              \/ q.filter \in {"(", "a**", "[z-a]"}
(* kinds = {}: all kinds; the kind ANY adds no restriction. *)
Asked(q) == [src |-> q.src, start |-> q.start, end |-> IF q.end = Zero THEN Now ELSE q.end,
             limit |-> IF q.limit = 0 THEN 100 ELSE q.limit, kinds |-> KindsOf(q) \ {"ANY"},
             filter |-> q.filter, desc |-> q.desc]
Sane(q) == ~Refused(q) => LET a == Asked(q)
                          IN a.limit \in 1..1000 /\ (a.end # Now => a.start <= a.end) /\ "ANY" \notin a.kinds
===============================================================================
