------------------------------ MODULE GenBatcher ------------------------------
(* The forwarder's ring buffer of Cap slots, its writers and its reader, step   *)
(* by step.  A writer looks at the next number, then stores and advances it; a  *)
(* lock lets one writer at a time do so (Locked).                               *)
EXTENDS Batcher
CONSTANTS Producers, K, Cap, Max, Locked
VARIABLES slots, widx, ridx, claim, buf
gvars == <<put, last, sent, dropped, slots, widx, ridx, claim, buf>>
NoneS == [seq |-> -1]
GInit == /\ BInit /\ slots = [i \in 0..(Cap - 1) |-> NoneS] /\ widx = 0 /\ ridx = 0
         /\ claim = [p \in Producers |-> -1] /\ buf = <<>>
GClaim(p) == /\ claim[p] = -1 /\ Get(put, p) < K
             /\ (Locked => \A q \in Producers : claim[q] = -1)
             /\ Put(p, 1)
             /\ claim' = [claim EXCEPT ![p] = widx]
             /\ UNCHANGED <<slots, widx, ridx, buf>>
GStore(p) == /\ claim[p] >= 0
             /\ slots' = [slots EXCEPT ![claim[p] % Cap] = [seq |-> claim[p], p |-> p, k |-> put[p]]]
             /\ widx' = claim[p] + 1
             /\ claim' = [claim EXCEPT ![p] = -1]
             /\ UNCHANGED <<put, last, sent, dropped, ridx, buf>>
GTake == /\ Len(buf) < Max
         /\ LET s == slots[ridx % Cap] IN
              /\ s.seq >= ridx
              /\ buf' = Append(buf, [p |-> s.p, lo |-> s.k, hi |-> s.k])
              /\ ridx' = s.seq + 1
              /\ IF s.seq > ridx THEN Drop(s.seq - ridx) ELSE UNCHANGED bvars
              /\ slots' = [slots EXCEPT ![ridx % Cap] = NoneS]
         /\ UNCHANGED <<widx, claim>>
GSend == /\ buf # <<>> /\ Batch(buf, Max) /\ buf' = <<>> /\ UNCHANGED <<slots, widx, ridx, claim>>
GNext == (\E p \in Producers : GClaim(p) \/ GStore(p)) \/ GTake \/ GSend
GSpec == GInit /\ [][GNext]_gvars
(* When nothing more can happen, every envelope was sent or counted. *)
Settles == (~ENABLED GNext) => Drained
===============================================================================
