------------------------------- MODULE LogStore -------------------------------
(* The envelope store, seen from its API: a map from source to the sequence of  *)
(* that source's envelopes, ordered by timestamp and, within a timestamp, by    *)
(* arrival.  Put may evict the oldest envelope of a full source; Prune evicts   *)
(* the n oldest envelopes over all sources and forgets emptied sources.         *)
(*                                                                              *)
(* An envelope is [id, t, ty, nm]: identity, timestamp, type and the set of     *)
(* metric names it carries ({} for logs and events).                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

VARIABLES
    max,      \* capacity per source
    db,       \* source -> sequence of envelopes
    exp,      \* source -> envelopes evicted since the source (re)appeared
    newest,   \* source -> highest timestamp put since the source (re)appeared
    expTotal  \* all evictions ever

svars == <<max, db, exp, newest, expTotal>>

Empty == [x \in {} |-> 0]

SInit(m) == max = m /\ db = Empty /\ exp = Empty /\ newest = Empty /\ expTotal = 0

Held(src)  == IF src \in DOMAIN db THEN db[src] ELSE <<>>
Get0(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Total      == FoldFunction(LAMBDA s, n : Len(s) + n, 0, db)

(* Position of e: behind everything with a timestamp that is not larger. *)
Ins(s, e) ==
    LET p == Cardinality({i \in DOMAIN s : s[i].t <= e.t})
    IN SubSeq(s, 1, p) \o <<e>> \o SubSeq(s, p + 1, Len(s))

Put(src, e) ==
    LET old  == Held(src)
        full == Len(old) >= max
        kept == IF full THEN Tail(old) ELSE old
        d    == IF full THEN 1 ELSE 0
    IN /\ db' = (src :> Ins(kept, e)) @@ db
       /\ exp' = (src :> (Get0(exp, src) + d)) @@ exp
       /\ newest' = (src :> (IF e.t > Get0(newest, src) THEN e.t ELSE Get0(newest, src))) @@ newest
       /\ expTotal' = expTotal + d
       /\ UNCHANGED max

(* n envelopes of one timestamp in a row, identified id .. id + n - 1; they all fit. *)
PutRun(src, id, n, t) ==
    LET old == Held(src)
        p   == Cardinality({i \in DOMAIN old : old[i].t <= t})
        run == [i \in 1..n |-> [id |-> id + i - 1, t |-> t, ty |-> "LOG", nm |-> {}]]
    IN /\ Len(old) + n <= max
       /\ db' = (src :> (SubSeq(old, 1, p) \o run \o SubSeq(old, p + 1, Len(old)))) @@ db
       /\ exp' = (src :> Get0(exp, src)) @@ exp
       /\ newest' = (src :> (IF t > Get0(newest, src) THEN t ELSE Get0(newest, src))) @@ newest
       /\ UNCHANGED <<max, expTotal>>

(* The ways to choose how many envelopes each source gives up when the n oldest *)
(* envelopes go: everything older than the cut timestamp goes, nothing younger  *)
(* does, and ties between sources at the cut are open.                          *)
AllTs == UNION {{db[s][i].t : i \in DOMAIN db[s]} : s \in DOMAIN db}
Older(s, t)   == Cardinality({i \in DOMAIN db[s] : db[s][i].t < t})
NotYounger(s, t) == Cardinality({i \in DOMAIN db[s] : db[s][i].t <= t})
SumOver(f) == FoldFunction(LAMBDA x, n : x + n, 0, f)

PruneCuts(n) ==
    LET k == IF n > Total THEN Total ELSE n
    IN IF k = 0 THEN {[s \in DOMAIN db |-> 0]}
       ELSE LET cut == CHOOSE t \in AllTs :
                          /\ SumOver([s \in DOMAIN db |-> Older(s, t)]) < k
                          /\ SumOver([s \in DOMAIN db |-> NotYounger(s, t)]) >= k
                lo  == [s \in DOMAIN db |-> Older(s, cut)]
                hi  == [s \in DOMAIN db |-> NotYounger(s, cut)]
                mx  == Max({hi[s] : s \in DOMAIN db})
            IN {f \in [DOMAIN db -> 0..mx] :
                   /\ \A s \in DOMAIN db : lo[s] <= f[s] /\ f[s] <= hi[s]
                   /\ SumOver(f) = k}

Prune(n) ==
    \E cut \in PruneCuts(n) :
        LET left == {s \in DOMAIN db : cut[s] < Len(db[s])}
        IN /\ db' = [s \in left |-> SubSeq(db[s], cut[s] + 1, Len(db[s]))]
           /\ exp' = [s \in left |-> exp[s] + cut[s]]
           /\ newest' = [s \in left |-> newest[s]]
           /\ expTotal' = expTotal + SumOver(cut)
           /\ UNCHANGED max

-------------------------------------------------------------------------------
(* Reads.  ty = {} means every type; flt = FALSE means no name filter, else     *)
(* match is the set of names the filter accepts.                                *)

TypeOk(e, ty) == ty = {} \/ e.ty \in ty
NameOk(e, flt, match) == ~flt \/ (e.nm \cap match) # {}

Read(src, st, en, ty, flt, match, lim, desc) ==
    LET inr == SelectSeq(Held(src), LAMBDA e : e.t >= st /\ e.t < en
                                         /\ TypeOk(e, ty) /\ NameOk(e, flt, match))
        ord == IF desc THEN Reverse(inr) ELSE inr
        n   == Len(ord)
    IN IF n <= lim THEN ord
       ELSE SelectSeq(SubSeq(ord, 1, n),
                LAMBDA e : IF desc THEN e.t >= ord[lim].t ELSE e.t <= ord[lim].t)

(* What a matching gauge is reduced to; other envelopes are returned whole. *)
NamesOut(e, flt, match) == IF flt /\ e.ty = "GAUGE" THEN e.nm \cap match ELSE e.nm

MetaOf(src) == [src |-> src, count |-> Len(db[src]), expired |-> exp[src],
                oldest |-> db[src][1].t, newest |-> newest[src]]
MetaAll == {MetaOf(s) : s \in DOMAIN db}

Oldest == IF DOMAIN db = {} THEN -1 ELSE Min({db[s][1].t : s \in DOMAIN db})
-------------------------------------------------------------------------------
(* Invariants of the design. *)
Sorted    == \A s \in DOMAIN db : \A i \in 1..(Len(db[s]) - 1) : db[s][i].t <= db[s][i+1].t
Bounded   == \A s \in DOMAIN db : Len(db[s]) \in 1..max
NoDup     == \A s \in DOMAIN db : Cardinality({db[s][i].id : i \in DOMAIN db[s]}) = Len(db[s])
Disjoint  == \A s, u \in DOMAIN db : s # u =>
                 {db[s][i].id : i \in DOMAIN db[s]} \cap {db[u][i].id : i \in DOMAIN db[u]} = {}
Domains   == DOMAIN exp = DOMAIN db /\ DOMAIN newest = DOMAIN db
NewestOk  == \A s \in DOMAIN db : \A i \in DOMAIN db[s] : db[s][i].t <= newest[s]
(* A page that is not the last one ends where a timestamp ends. *)
PageWhole(src, lim) ==
    LET p == Read(src, 0, 1000, {}, FALSE, {}, lim, FALSE)
        a == Held(src)
    IN /\ p = SubSeq(a, 1, Len(p))
       /\ Len(p) >= (IF lim < Len(a) THEN lim ELSE Len(a))
       /\ (Len(p) < Len(a) => a[Len(p)].t < a[Len(p) + 1].t)
       /\ (Len(p) > lim => a[lim].t = a[Len(p)].t)
Pages == \A s \in DOMAIN db : \A lim \in 1..3 : PageWhole(s, lim)

(* What leaves is never younger than what stays. *)
PruneOldest == [][
    (\A s \in DOMAIN db' : s \in DOMAIN db /\ IsSuffix(db'[s], db[s])) =>
        \A s \in DOMAIN db : \A i \in 1..(Len(db[s]) - (IF s \in DOMAIN db' THEN Len(db'[s]) ELSE 0)) :
            \A u \in DOMAIN db' : db[s][i].t <= db'[u][1].t]_svars
===============================================================================
