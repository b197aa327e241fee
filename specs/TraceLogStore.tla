---------------------------- MODULE TraceLogStore -----------------------------
EXTENDS LogStore, TraceKit
tvars == <<max, db, exp, newest, expTotal, ep, l>>

TInit == KInit /\ SInit(Cfg.max)

Env(r) == [id |-> r.id, t |-> r.t, ty |-> r.ty, nm |-> Range(r.nm)]

TPut == /\ Step("put") /\ Put(Ev.src, Env(Ev))
        /\ ("size" \in DOMAIN Ev => Ev.size = FoldFunction(LAMBDA s, n : Len(s) + n, 0, db'))

TPutRun == Step("putrun") /\ PutRun(Ev.src, Ev.id, Ev.n, Ev.t)

TPrune == /\ Step("prune") /\ Prune(Ev.n)
          /\ ("arg" \in DOMAIN Ev => Ev.arg = Total)
          /\ ("expired" \in DOMAIN Ev => Ev.expired = expTotal')
          /\ ("size" \in DOMAIN Ev => Ev.size = Total')
          /\ ("old" \in DOMAIN Ev => Ev.old = Oldest')

(* ok: the envelope came back with exactly the content that was put (for a      *)
(* filtered gauge: that content reduced to the names listed).                   *)
TGet == /\ Step("get") /\ UNCHANGED svars
        /\ LET want == Read(Ev.src, Ev.st, Ev.en, Range(Ev.ty), Ev.flt, Range(Ev.match), Ev.lim, Ev.desc)
           IN /\ Len(Ev.res) = Len(want)
              /\ \A i \in DOMAIN want :
                    /\ Ev.res[i].id = want[i].id
                    /\ Ev.res[i].ok
                    /\ Range(Ev.res[i].nm) = NamesOut(want[i], Ev.flt, Range(Ev.match))

TMeta == /\ Step("meta") /\ UNCHANGED svars
         /\ Range(Ev.res) = MetaAll
         /\ Len(Ev.res) = Cardinality(DOMAIN db)

TNext == TPut \/ TPutRun \/ TPrune \/ TGet \/ TMeta
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
