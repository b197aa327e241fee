"""The checks, one function per property."""
CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


def cfg(spec="GSpec", consts=None, inv=(), props=(), view=None, emit=False, constraint=None, extra=""):
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if consts:
        s += "CONSTANTS\n" + "".join("    %s = %s\n" % kv for kv in consts.items())
    if inv:
        s += "INVARIANTS " + " ".join(inv) + "\n"
    if props:
        s += "PROPERTIES " + " ".join(props) + "\n"
    if view:
        s += "VIEW %s\n" % view
    if emit:
        s += "ACTION_CONSTRAINT Emit\n"
    if constraint:
        s += "CONSTRAINT %s\n" % constraint
    return s + extra


# --------------------------------------------------------------------------- store
STORE_INV = ("Sorted", "Bounded", "NoDup", "Disjoint", "Domains", "NewestOk", "Pages", "Conserved")
TSTORE_INV = ("Sorted", "Bounded", "NoDup", "Domains", "NewestOk")


def store_check(c, mode, n, cap, puts, prunes, ncap=2, srcs='{"a", "b"}', ts="{1, 2}"):
    consts = dict(Srcs=srcs, Ts=ts, Cap=ncap, MaxPuts=puts, MaxPrunes=prunes, Emitting="TRUE")
    scn = c.model("GenLogStore", cfg(consts=consts, inv=STORE_INV, props=("PruneOldest",), view="View", emit=True),
                  what="%d puts, %d prunes" % (puts, prunes), scenarios=True, cap=cap)
    b = c.build("store")
    tr = c.run(b, "store", mode, scn=scn, n=n)
    c.validate("TraceLogStore", tr, TSTORE_INV, min_eps=n // 2)


@check("S01")
def s01(c):
    store_check(c, "contents", 300 if c.quick else 3000, 1200 if c.quick else None, 4, 0, ncap=1000)


@check("S02")
def s02(c):
    store_check(c, "range", 300 if c.quick else 3000, 300 if c.quick else None, 4, 0, ncap=1000)


@check("S03")
def s03(c):
    store_check(c, "limit", 500 if c.quick else 5000, 600 if c.quick else None, 5, 0, ncap=1000, srcs='{"a"}', ts="{1, 2, 3}")


@check("S04")
def s04(c):
    store_check(c, "evict", 300 if c.quick else 3000, 2000 if c.quick else None, 4, 1 if c.quick else 2)


@check("S05")
def s05(c):
    store_check(c, "meta", 300 if c.quick else 3000, 2000 if c.quick else None, 4, 1 if c.quick else 2)


@check("S06")
def s06(c):
    k = dict(Putters="{1, 2, 3}", Srcs='{"a", "b"}', PruneN="2", Fixed="TRUE")
    c.model("LogStoreConc", cfg("Spec", k, ("NoLoss", "NoCrash", "OneEach")), what="3 putters, prune of 2, meta")
    for inv in ("NoLoss", "NoCrash"):
        c.design_flaw("LogStoreConc", cfg("Spec", dict(k, Fixed="FALSE"), (inv,)), "Invariant %s is violated" % inv)
    b = c.build("store")
    tr = c.run(b, "store", "stress", n=10 if c.quick else 100)
    c.validate("TraceConcStore", tr)
    tr = c.run(b, "store", "conc", n=400 if c.quick else 4000)
    c.validate("TraceConcStore", tr, TSTORE_INV, confirm=lambda ep: c.run(b, "store", "conc", n=400 if c.quick else 4000, only=ep))


# --------------------------------------------------------------------------- walking clients
@check("K01")
def k01(c):
    ww = dict(MaxT=4, Lag=1, Delay=2, Limit=2, MaxEnv=5, Split="FALSE")
    c.model("WalkWorld", cfg("Spec", ww, ("Exactly",)), what="5 envelopes, pages of 2")
    c.design_flaw("WalkWorld", cfg("Spec", dict(ww, Split="TRUE"), ("Exactly",)), "Invariant Exactly is violated")
    c.design_flaw("WalkWorld", cfg("Spec", dict(ww, Delay=1), ("Exactly",)), "Invariant Exactly is violated")
    scn = c.model("GenWalk", cfg(consts=dict(Ts="{1, 2, 3, 1001}", Ends="{0, 3, 1002}", MaxReads=3 if c.quick else 4, Emitting="TRUE"),
                                 inv=("Ascending", "Within", "CurOk"), view="View", emit=True),
                  what="walks of 3 reads", scenarios=True, cap=1500 if c.quick else 20000)
    b = c.build("walk")
    tr = c.run(b, "walk", "walk", scn=scn, n=1000 if c.quick else 20000)
    c.validate("TraceWalk", tr, confirm=lambda ep: c.run(b, "walk", "walk", scn=scn, n=1000 if c.quick else 20000, only=ep))
    tr = c.run(b, "walk", "buildwalker", n=200 if c.quick else 2000)
    c.validate("TraceReader", tr, constants="CONSTANT Patience = 5\n")


@check("K02")
def k02(c):
    scn = c.model("GenWindow", cfg(consts=dict(MaxK=4, Emitting="TRUE"), inv=("NoGap",), emit=True), what="4 rounds", scenarios=True)
    b = c.build("walk")
    n = 200 if c.quick else 2000
    tr = c.run(b, "walk", "window", scn=scn, n=n)
    c.validate("TraceWindow", tr, confirm=lambda ep: c.run(b, "walk", "window", scn=scn, n=n, only=ep))
    tr = c.run(b, "walk", "buildwalker", n=n)
    c.validate("TraceReader", tr, constants="CONSTANT Patience = 5\n")


@check("Q03")
def q03(c):
    ww = dict(MaxT=4, Lag=1, Delay=2, Limit=2, MaxEnv=5, Split="FALSE")
    c.model("WalkWorld", cfg("Spec", ww, ("Exactly",)), what="5 envelopes, pages of 2")
    b = c.build("walk")
    tr = c.run(b, "walk", "reader", n=400 if c.quick else 1900)
    c.validate("TraceReader", tr, constants="CONSTANT Patience = 5\n")


@check("K04")
def k04(c):
    inv = ("NeverBare", "NeverStale")
    k = dict(N=3, Emitting="FALSE", Torn="FALSE")
    c.model("GenOAuth", cfg(consts=k, inv=inv), what="3 concurrent calls")
    c.design_flaw("GenOAuth", cfg(consts=dict(k, Torn="TRUE"), inv=("NeverBare",)), "Invariant NeverBare is violated")
    scn = c.model("GenOAuth", cfg(consts=dict(k, Emitting="TRUE"), inv=inv, emit=True),
                  what="3 calls in sequence", scenarios=True, cap=1500 if c.quick else None)
    b = c.build("oauth", race=True)
    n = 600 if c.quick else 10000
    tr = c.run(b, "oauth", scn=scn, n=n)
    c.validate("TraceOAuth", tr, inv)


@check("K03")
def k03(c):
    inv = ("BaseKnown", "Bounded")
    c.model("GenClient", cfg(consts=dict(Emitting="FALSE", MaxCalls=2), inv=inv), what="2 calls")
    scn = c.model("GenClient", cfg(consts=dict(Emitting="TRUE", MaxCalls=1), inv=inv, emit=True), what="1 call", scenarios=True)
    b = c.build("client")
    reps = 1 if c.quick else 30
    for i in range(reps):
        tr = c.run(b, "client", scn=scn, env={"VERIF_SEED": str(c.seed * 1000 + i)})
        c.validate("TraceClient", tr)
        if c.violations:
            break


@check("Q04")
def q04(c):
    k = dict(Emitting="FALSE", MaxRows=3, MaxPoints=2, MaxLabels=1)
    c.model("GenPromJson", cfg(consts=k, inv=("Inverse",)), what="3 rows")
    scn = c.model("GenPromJson", cfg(consts=dict(k, Emitting="TRUE", MaxRows=2, MaxLabels=2), emit=True), what="2 rows", scenarios=True,
                  cap=3000 if c.quick else None)
    b = c.build("promjson")
    for i in range(1 if c.quick else 20):
        tr = c.run(b, "promjson", scn=scn, n=200 if c.quick else 1000, env={"VERIF_SEED": str(c.seed * 100 + i)})
        c.validate("TracePromJson", tr)
        if c.violations:
            break


@check("G01")
def g01(c):
    inv = ("AskedOnce", "OwnSource")
    scn = c.model("GenGateway", cfg(consts=dict(Emitting="TRUE", MaxParams=2), inv=inv, emit=True), what="1 request, 2 parameters", scenarios=True,
                  cap=2500 if c.quick else None)
    def key(e, pos, bad):
        src = e["ev"][0].get("src", "")
        if bad.get("op") == "rpc" and src.endswith(":") and bad["args"].get("source_id") == [src[:-1]]:
            return "trailing-colon"
        return "%s %s" % (e["ep"], bad.get("op"))

    b = c.build("gateway")
    for i in range(1 if c.quick else 10):
        tr = c.run(b, "gateway", scn=scn, n=1500 if c.quick else 10000, env={"VERIF_SEED": str(c.seed * 100 + i)})
        c.validate("TraceGateway", tr, key=key)
        if c.violations:
            return
    g = c.build_cmd("gateway", ldflags="-X main.buildVersion=7.8.9")
    tr = c.run(b, "gateway", "binary", env={"VERIF_GATEWAY_BIN": g})
    c.validate("TraceGateway", tr)


@check("B01")
def b01(c):
    for en in ("TRUE", "FALSE"):
        c.model("BlackboxLoop", cfg("LSpec", dict(Enabled=en, Expected=2), ("Honest",), ("KeepsOn",)), what="enabled=" + en)
    scn = c.model("GenBlackbox", cfg(consts=dict(Emitting="TRUE", MaxSends=7), inv=("TriesOk",), emit=True), what="7 sends", scenarios=True)
    b = c.build("blackbox")
    n = 20 if c.quick else 500
    tr = c.run(b, "blackbox", scn=scn, n=n)
    c.validate("TraceBlackbox", tr, confirm=lambda ep: c.run(b, "blackbox", scn=scn, n=n, only=ep))
    p = c.build_cmd("blackbox")
    n = 8 if c.quick else 200
    env = {"VERIF_BLACKBOX_BIN": p}
    tr = c.run(b, "blackbox", "program", n=n, env=env)
    c.validate("TraceBlackboxLoop", tr, confirm=lambda ep: c.run(b, "blackbox", "program", n=n, env=env, only=ep))


@check("T01")
def t01(c):
    scn = c.model("GenTls", cfg(consts=dict(Emitting="TRUE", Dims=2 if c.quick else 3), inv=("NoStranger", "Peace"), emit=True),
                  what="peers of %d oddities" % (2 if c.quick else 3), scenarios=True)
    b = c.build("tlspair")
    tr = c.run(b, "tlspair", scn=scn, n=0 if c.quick else 1)
    c.validate("TraceTls", tr)


# --------------------------------------------------------------------------- routing
def ints(r):
    return "{%s}" % ", ".join(str(x) for x in r)


def routing(c, mode, scn, n, module, invs=(), constants="", race=True, confirm=False):
    b = c.build("routing", race=race)
    tr = c.run(b, "routing", mode, scn=scn, n=n)
    c.validate(module, tr, invs, constants=constants,
               confirm=(lambda ep: c.run(b, "routing", mode, scn=scn, n=n, only=ep)) if confirm else None)


@check("R01")
def r01(c):
    ks = dict(Zero=3, Now=99)
    scn = c.model("GenLocalReader", cfg(consts=dict(ks, Times="{0, 2, 3, 4, 6, 7}", Limits="{0, 1, 999, 1000, 1001}", Emitting="TRUE"),
                                        inv=("AllSane",), emit=True), what="all request classes", scenarios=True, cap=4000 if c.quick else None)
    routing(c, "reader", scn, 40 if c.quick else 400, "TraceLocalReader", constants="CONSTANTS Zero = 3 Now = 99\n")


@check("C03")
def c03(c):
    c.model("GenRoutingTable", cfg(consts=dict(Points="{0, 1}", Nodes="{0, 1}", MaxSets=2, MaxCalls=3, Emitting="FALSE"),
                                   inv=("Settled", "OneTable")), what="2 sets, concurrent lookups")
    scn = c.model("GenRoutingTable", cfg(consts=dict(Points="{0, 1, 2, 3}" if not c.quick else "{0, 1, 2}", Nodes="{0, 1}", MaxSets=2, MaxCalls=2, Emitting="TRUE"),
                                         inv=("Settled",), emit=True), what="tables of two ranges", scenarios=True, cap=1500 if c.quick else 15000)
    routing(c, "table", scn, 80 if c.quick else 1000, "TraceRoutingTable", ("Settled",))


@check("C04")
def c04(c):
    c.model("GenAgent", cfg(consts=dict(Rs='{"a", "b"}', N=3 if c.quick else 4, Emitting="FALSE"), inv=("Positive", "Bounded")), what="concurrent calls")
    scn = c.model("GenAgent", cfg(consts=dict(Rs='{"a", "b", "c"}', N=4 if c.quick else 5, Emitting="TRUE"), inv=("Positive", "Bounded"), emit=True),
                  what="histories", scenarios=True, cap=1500 if c.quick else 10000)
    c.race_half = True
    routing(c, "agent", scn, 150 if c.quick else 2000, "TraceAgent", ("Positive",))


@check("C01")
def c01(c):
    c.model("GenIngress", cfg(consts=dict(Nodes="{0, 1}", MaxB=3, Emitting="FALSE"), inv=("Exact", "Ordered")), what="deliveries in any order")
    scn = c.model("GenIngress", cfg(consts=dict(Nodes="{0, 1, 2}", MaxB=2 if c.quick else 3, Emitting="TRUE"), inv=("Ordered",), emit=True),
                  what="requests", scenarios=True, cap=2000 if c.quick else None)
    routing(c, "ingress", scn, 300 if c.quick else 5000, "TraceIngress")


@check("C02")
def c02(c):
    k = dict(Nodes="{0, 1}", N=5, Period=2, Emitting="FALSE")
    c.model("GenEgress", cfg(consts=k, inv=("Young",)), what="5 operations")
    scn = c.model("GenEgress", cfg(consts=dict(k, N=4 if c.quick else 5, Emitting="TRUE"), inv=("Young",), emit=True),
                  what="histories", scenarios=True, cap=2000 if c.quick else 20000)
    routing(c, "egress", scn, 300 if c.quick else 5000, "TraceEgress", confirm=True)


@check("I01")
def i01(c):
    k = dict(Producers="{1, 2}", K=3, Cap=2, Max=2, Locked="TRUE")
    inv = ("NoneTwice", "Settles")
    c.model("GenBatcher", cfg(consts=k, inv=inv), what="2 writers, a buffer of 2")
    c.model("GenBatcher", cfg(consts=dict(k, Producers="{1}", K=6, Locked="FALSE"), inv=inv), what="1 writer")
    c.design_flaw("GenBatcher", cfg(consts=dict(k, Cap=6, Locked="FALSE"), inv=inv), "is violated")
    routing(c, "batch", None, 192 if c.quick else 1500, "TraceBatcher", ("NoneTwice",), confirm=True)


@check("C05")
def c05(c):
    k = dict(Ns="{1, 2, 3}", Rs='{"x", "y"}', Factor=2, MaxFaults=2, MaxRounds=4, TellStale="FALSE", Emitting="FALSE")
    c.model("GenScheduler", cfg(consts=k, inv=("Restored",), props=("Passive",)), what="3 nodes, 2 ranges, factor 2, 2 faults")
    c.design_flaw("GenScheduler", cfg(consts=dict(k, TellStale="TRUE", MaxFaults=1), inv=("Restored",)), "Invariant Restored is violated")
    if not c.quick:
        c.model("GenScheduler", cfg(consts=dict(k, MaxFaults=3, MaxRounds=5), inv=("Restored",)), what="3 faults", timeout=800)
    scn = c.model("GenScheduler", cfg(consts=dict(k, Rs='{"x"}', MaxFaults=3, MaxRounds=0, Emitting="TRUE"), inv=("Restored",), emit=True),
                  what="fault sequences", scenarios=True, cap=60 if c.quick else 1000)
    b = c.build("scheduler", race=True)
    n = 60 if c.quick else 1000
    tr = c.run(b, "scheduler", "", scn=scn, n=n, timeout=700)
    c.validate("TraceScheduler", tr, min_eps=n, confirm=lambda ep: c.run(b, "scheduler", "", scn=scn, n=n, only=ep))


@check("I02")
def i02(c):
    k = dict(N=5, Max=2, Queue=1, Workers=2)
    c.model("GenNozzle", cfg(consts=k, inv=("Once", "Settles")), what="5 envelopes, batches of 2, one waiting")
    b = c.build("nozzle")
    n = 80 if c.quick else 1000
    tr = c.run(b, "nozzle", "", n=n)
    c.validate("TraceNozzle", tr, ("Once",), confirm=lambda ep: c.run(b, "nozzle", "", n=n, only=ep))
    r = c.build("nozzle", race=True)
    t = 4 if c.quick else 24
    tr = c.run(r, "nozzle", "trickle", n=t)
    c.validate("TraceNozzle", tr, ("Once",), confirm=lambda ep: c.run(r, "nozzle", "trickle", n=t, only=ep))
    m = 2 if c.quick else 10
    tr = c.run(b, "nozzle", "flood", n=m)
    c.validate("TraceNozzle", tr, ("Once",), confirm=lambda ep: c.run(b, "nozzle", "flood", n=m, only=ep))


@check("I03")
def i03(c):
    kinds = '"log", "err", "noproc", "noapp", "nots", "nomsg", "counter", "badcounter", "gauge", "badgauge", "timer", "badtimer", "event", "other", "multi", "broken"'
    k = dict(Conns=1, PerConn=2, Oks="{TRUE, FALSE}", Kinds="{%s}" % kinds, Emitting="TRUE")
    scn = c.model("GenSyslog", cfg(consts=k, inv=("Accounted", "Flows"), view="View", emit=True), what="all pairs of messages on a connection", scenarios=True, cap=600 if c.quick else None)
    k = dict(Conns=2, PerConn=2, Oks="{TRUE}", Kinds='{"log", "counter", "badcounter", "broken"}', Emitting="TRUE")
    scn2 = c.model("GenSyslog", cfg(consts=k, inv=("Accounted", "Flows"), view="View", emit=True), what="all interleavings of two connections", scenarios=True, cap=400 if c.quick else None)
    b = c.build("syslog")
    n = 300 if c.quick else 5000
    for s, m in ((scn, 0), (scn2, n)):
        tr = c.run(b, "syslog", "", scn=s, n=m)
        c.validate("TraceSyslog", tr, confirm=lambda ep: c.run(b, "syslog", "", scn=s, n=m, only=ep))


@check("M01")
def m01(c):
    k = dict(Heaps="{0, 1, 2, 5, 6, 7, 9, 10}", Totals="{10, 7}", Limits="{0, 333, 500, 700, 1000}", Counts="{0, 1, 2, 3, 10, 1000}", Steps=1, Emitting="TRUE")
    scn = c.model("GenPrune", cfg(consts=k, inv=("Fits",), emit=True), what="decisions", scenarios=True)
    c.model("GenPrune", cfg(consts=dict(k, Heaps=ints(range(41)), Totals=ints(range(1, 41)), Limits=ints(range(0, 1001, 50)), Counts=ints(range(13)),
                                        Emitting="FALSE"), inv=("Fits",)), what="all small decisions")
    b = c.build("memory")
    n = 600 if c.quick else 20000
    tr = c.run(b, "memory", "", scn=scn, n=n)
    c.validate("TracePrune", tr, confirm=lambda ep: c.run(b, "memory", "", scn=scn, n=n, only=ep))


@check("A01")
def a01(c):
    inv = ("Tight", "NoToken", "Answered", "AdminsServed")
    k = dict(MaxReqs=1, MaxSels=1, Faults='{"no", "rel", "meta", "impostor"}', Plain="FALSE", Emitting="TRUE")
    def model(what, cap, **kw):
        return c.model("GenAuthProxy", cfg(consts=dict(k, **kw), inv=inv, emit=True), what=what, scenarios=True, cap=cap, timeout=800)
    wide = model("1 request", 2500 if c.quick else None)
    two = model("1 request, 2 matchers", 1500 if c.quick else 30000, MaxSels=2, Faults='{"no"}')
    hist = model("2 requests", 500 if c.quick else 20000, MaxReqs=2, MaxSels=0, Faults='{"no"}', Plain="TRUE")
    b = c.build("authproxy", race=True)
    for scn, m in ((wide, 40 if c.quick else 1000), (two, 0), (hist, 0)):
        tr = c.run(b, "authproxy", "", scn=scn, n=m, timeout=800)
        c.validate("TraceAuthProxy", tr)
    env = {"VERIF_PROXY_BIN": c.build_cmd("cf-auth-proxy")}
    tr = c.run(b, "authproxy", "program", n=30 if c.quick else 500, env=env)
    c.validate("TraceAuthProxy", tr)


@check("E01")
def e01(c):
    inv = ("Everywhere", "NoOwner", "LoneAll")
    k = dict(Ns='{"0", "1", "2"}', MaxOps=4 if c.quick else 5, MaxFaults=1, Shifted="FALSE", Relays='"no"', Emitting="TRUE")
    three = c.model("GenCluster", cfg(consts=k, inv=inv, emit=True), what="3 nodes", scenarios=True, cap=150 if c.quick else 3000, timeout=800)
    one = c.model("GenCluster", cfg(consts=dict(k, Ns='{"0"}'), inv=inv, emit=True), what="1 node", scenarios=True, cap=30 if c.quick else 500)
    c.design_flaw("GenCluster", cfg(consts=dict(k, Emitting="FALSE", Shifted="TRUE"), inv=inv), "Invariant Everywhere is violated")
    c.model("GenCluster", cfg(consts=dict(k, Relays='"yes"', MaxOps=3 if c.quick else 4, Emitting="FALSE"), inv=inv), what="3 nodes and programs", timeout=800)
    c.design_flaw("GenCluster", cfg(consts=dict(k, Emitting="FALSE", Relays='"kept"'), inv=inv), "Invariant Everywhere is violated")
    b = c.build("cluster")
    tr = c.run(b, "cluster", "", scn=three, n=48 if c.quick else 800, timeout=800)
    c.validate("TraceCluster", tr)
    tr = c.run(b, "cluster", "", scn=one, n=0, env={"VERIF_NODES": "1"}, timeout=800)
    c.validate("TraceCluster", tr)
    env = {"VERIF_LOG_CACHE_BIN": c.build_cmd("log-cache"), "VERIF_SCHEDULER_BIN": c.build_cmd("scheduler"),
           "VERIF_SYSLOG_BIN": c.build_cmd("syslog-server")}
    tr = c.run(b, "cluster", "programs", n=10 if c.quick else 150, env=env, timeout=800)
    c.validate("TraceCluster", tr)


@check("Q02")
def q02(c):
    inv = ("Exactly", "Same", "Apiece")
    k = dict(Emitting="TRUE", MaxSels=1, MaxMatchers=2)
    one = c.model("GenSourceIds", cfg(consts=k, inv=inv, emit=True), what="1 selector", scenarios=True, cap=2000 if c.quick else None)
    two = c.model("GenSourceIds", cfg(consts=dict(k, MaxSels=2, MaxMatchers=1 if c.quick else 2), inv=inv, emit=True), what="2 selectors", scenarios=True, cap=2500 if c.quick else 60000)
    b = c.build("promql")
    for scn, n in ((one, 60 if c.quick else 2000), (two, 0)):
        tr = c.run(b, "promql", "ids", scn=scn, n=n)
        c.validate("TraceSourceIds", tr)


@check("Q01")
def q01(c):
    inv = ("OnlyNamed", "Partition", "Answerable")
    k = dict(Emitting="TRUE", MaxSamples=1, Wide="TRUE", Faults="TRUE")
    one = c.model("GenPromQL", cfg(consts=k, inv=inv, emit=True), what="1 sample", scenarios=True, cap=4000 if c.quick else None, timeout=800)
    two = c.model("GenPromQL", cfg(consts=dict(k, MaxSamples=2, Wide="FALSE", Faults="FALSE" if c.quick else "TRUE"), inv=inv, emit=True), what="2 samples", scenarios=True, cap=4000 if c.quick else 60000, timeout=800)
    b = c.build("promql", race=True)
    for scn, n in ((one, 150 if c.quick else 3000), (two, 0)):
        tr = c.run(b, "promql", "queries", scn=scn, n=n)
        c.validate("TracePromQL", tr)


@check("A04")
def a04(c):
    k = dict(Fwds='{"none", "ip4", "port", "ip6", "name", "gap"}', Queries='{"none", "plain", "odd"}', Vcaps='{"none", "plain", "odd"}',
             Paths='{"plain", "odd"}', Reqs=1, Emitting="TRUE")
    inv = ("LoggedFirst", "OneLine", "AllDone")
    scn = c.model("GenAccessLog", cfg(consts=k, inv=inv, emit=True), what="kinds of requests", scenarios=True)
    c.model("GenAccessLog", cfg(consts=dict(k, Fwds='{"none"}', Queries='{"none"}', Vcaps='{"none"}', Paths='{"plain"}', Reqs=3, Emitting="FALSE"), inv=inv),
            what="3 concurrent requests")
    b = c.build("accesslog")
    n = 300 if c.quick else 5000
    tr = c.run(b, "accesslog", "", scn=scn, n=n)
    c.validate("TraceAccessLog", tr, ("LoggedFirst",), confirm=lambda ep: c.run(b, "accesslog", "", scn=scn, n=n, only=ep))
    env = {"VERIF_PROXY_BIN": c.build_cmd("cf-auth-proxy")}
    m = 16 if c.quick else 200
    tr = c.run(b, "accesslog", "built", n=m, env=env, timeout=600)
    c.validate("TraceAccessLog", tr, ("LoggedFirst",), confirm=lambda ep: c.run(b, "accesslog", "built", n=m, env=env, only=ep))


@check("A02")
def a02(c):
    inv = ("Throttled", "OnlyPublished", "Current", "Finishes")
    k = dict(Ops=3, W=2, MaxReads=3, Toks='{"a1", "b2", "a2"}', Answers='{"a1b2", "nokey"}', Conc="TRUE", Loose="FALSE", Emitting="FALSE")
    c.model("GenUaa", cfg(consts=k, inv=inv), what="concurrent reads")
    c.design_flaw("GenUaa", cfg(consts=dict(k, Loose="TRUE"), inv=inv), "Invariant Throttled is violated")
    k = dict(k, Ops=5 if c.quick else 6, MaxReads=1, Conc="FALSE", Emitting="TRUE",
             Toks='{"a1", "b2", "a2", "b1", "admin", "expired", "tampered", "none", "hs", "nokid", "broken", "nodata"}',
             Answers='{"a1", "a2", "a1b2", "twice", "empty", "status", "lost", "json", "novalue", "nopem", "notrsa", "nokey"}')
    scn = c.model("GenUaa", cfg(consts=k, inv=inv, view="Short", emit=True), what="reads in sequence", scenarios=True, cap=1200 if c.quick else None)
    b = c.build("uaa", race=True)
    n = 400 if c.quick else 5000
    tr = c.run(b, "uaa", "", scn=scn, n=n, timeout=600)
    c.validate("TraceUaa", tr, confirm=lambda ep: c.run(b, "uaa", "", scn=scn, n=n, only=ep))
    m = 150 if c.quick else 2000
    tr = c.run(b, "uaa", "conc", n=m, timeout=600)
    c.validate("TraceUaa", tr, confirm=lambda ep: c.run(b, "uaa", "conc", n=m, only=ep))
    h = 300 if c.quick else 5000
    tr = c.run(b, "uaa", "herd", n=h, timeout=600)
    c.validate("TraceUaa", tr)


@check("A03")
def a03(c):
    inv = ("Listed", "Limited", "Ends")
    k = dict(Ops=5 if c.quick else 6, P=2, Toks='{"t"}', Srcs='{"s"}', Conc="FALSE", Unlimited="FALSE", Emitting="FALSE")
    c.model("GenCapi", cfg(consts=k, inv=inv), what="calls in sequence")
    c.model("GenCapi", cfg(consts=dict(k, Ops=3 if c.quick else 4, Conc="TRUE"), inv=inv), what="concurrent calls", timeout=800)
    c.design_flaw("GenCapi", cfg(consts=dict(k, Unlimited="TRUE"), inv=inv), "Invariant Limited is violated")
    scn = c.model("GenCapi", cfg(consts=dict(k, Ops=6, Toks='{"t", "u"}', Srcs='{"s", "r"}', Emitting="TRUE"), inv=inv, view="View", emit=True),
                  what="histories", scenarios=True, cap=1200 if c.quick else 20000)
    b = c.build("capi", race=True)
    n = 400 if c.quick else 5000
    tr = c.run(b, "capi", "", scn=scn, n=n, timeout=600)
    c.validate("TraceCapi", tr, confirm=lambda ep: c.run(b, "capi", "", scn=scn, n=n, only=ep))
    m = 100 if c.quick else 1000
    tr = c.run(b, "capi", "conc", n=m)
    c.validate("TraceCapi", tr)
