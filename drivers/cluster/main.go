// Driver for clusters: real nodes that speak gRPC over TCP with each other, as a library in this process (mode "")
// and as the built programs with TLS and a scheduler (mode "programs").
package main

import (
	"context"
	"fmt"
	"hash/crc64"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
)

type R = vt.R

var ecma = crc64.MakeTable(crc64.ECMA)

func hash(s string) uint64 { return crc64.Checksum([]byte(s), ecma) }

// node is one place in a cluster: what runs there comes and goes.
type node struct {
	w, addr string
	up      bool
	stop    func()
	conn    *grpc.ClientConn
}

type sentBy struct {
	n, via string
	sure   bool
}

// world is one cluster, and what the driver expects of it (only to know how long to wait).
type world struct {
	e      *vt.Episode
	r      *rand.Rand
	nodes  []*node
	srcs   []string          // words
	str    map[string]string // word -> source id
	cap    int
	base   int64
	next   int
	start  func(i int) func()
	dial   []grpc.DialOption
	route  map[string]map[string][]string
	envs   map[int]*loggregator_v2.Envelope
	expect map[string]map[string]map[int]string // node -> source -> ids that are or will be there -> sent by
	may    map[string]map[int]bool              // node -> ids that may be there
	near   map[string]bool
	begin  time.Time
	broken bool // a node did not start
	tired  bool // of waiting: it has been in vain
	mu     sync.Mutex
}

const second = int64(time.Second)

// wait until f holds, not for long once this has failed.
func (x *world) wait(d time.Duration, f func() bool) bool {
	if x.tired && d > 300*time.Millisecond {
		d = 300 * time.Millisecond
	}
	ok := vt.Eventually(d, f)
	if !ok && !x.tired {
		x.tired = true
		atomic.AddInt32(&inVain, 1)
	}
	return ok
}

// inVain counts episodes that waited in vain: after some there is no need for more.
var inVain int32

// over: there is no use in going on.
func (x *world) over() bool {
	return x.broken || x.tired && time.Since(x.begin) > 60*time.Second || atomic.LoadInt32(&inVain) > 24
}

func (x *world) node(w string) *node {
	for _, n := range x.nodes {
		if n.w == w {
			return n
		}
	}
	return nil
}

func (x *world) has(l []string, w string) bool {
	for _, s := range l {
		if s == w {
			return true
		}
	}
	return false
}

func (x *world) bring(n *node) {
	for i := range x.nodes {
		if x.nodes[i] == n {
			n.stop = x.start(i)
		}
	}
	if n.stop == nil { // there is nothing to start
		return
	}
	ctx, done := context.WithTimeout(context.Background(), 30*time.Second)
	defer done()
	var err error
	if n.conn, err = grpc.DialContext(ctx, n.addr, append([]grpc.DialOption{grpc.WithBlock()}, x.dial...)...); err != nil {
		x.e.Log(R{"op": "stuck", "what": "node does not start", "n": n.w})
		x.broken = true
		return
	}
	n.up = true
	x.expect[n.w], x.may[n.w] = map[string]map[int]string{}, map[int]bool{}
	x.e.Log(R{"op": "up", "n": n.w})
}

func (x *world) end(n *node) {
	if !n.up {
		return
	}
	n.up = false
	n.conn.Close()
	if ok, crash := vt.Within(30*time.Second, n.stop); !ok {
		x.e.Log(R{"op": "stuck", "what": "node does not end", "n": n.w, "crash": crash})
	}
	x.mu.Lock()
	delete(x.route, n.w)
	for w := range x.near {
		if strings.HasPrefix(w, n.w+">") || strings.HasSuffix(w, ">"+n.w) {
			delete(x.near, w)
		}
	}
	// what was on its way from there is not waited for
	for _, m := range x.expect {
		for _, ids := range m {
			for i, via := range ids {
				if via == n.w {
					delete(ids, i)
				}
			}
		}
	}
	x.mu.Unlock()
	x.e.Log(R{"op": "down", "n": n.w})
}

func (x *world) live() []*node {
	var out []*node
	for _, n := range x.nodes {
		if n.up {
			out = append(out, n)
		}
	}
	return out
}

func ctx5() context.Context {
	ctx, _ := context.WithTimeout(context.Background(), 20*time.Second)
	return ctx
}

// table: ranges such that each source has just these owners.
func (x *world) table(t map[string][]string) map[string]*rpc.Ranges {
	ws := append([]string{}, x.srcs...)
	sort.Slice(ws, func(i, j int) bool { return hash(x.str[ws[i]]) < hash(x.str[ws[j]]) })
	m := map[string]*rpc.Ranges{}
	for _, n := range x.nodes {
		m[n.addr] = &rpc.Ranges{}
	}
	lo := uint64(0)
	for i, w := range ws {
		h := hash(x.str[w])
		hi := uint64(math.MaxUint64)
		if i < len(ws)-1 {
			hi = h + uint64(x.r.Float64()*float64(hash(x.str[ws[i+1]])-h-1))
			if x.r.Intn(3) == 0 {
				hi = []uint64{h, hash(x.str[ws[i+1]]) - 1}[x.r.Intn(2)]
			}
		}
		for _, o := range t[w] {
			rs := m[x.node(o).addr]
			if lo < h && x.r.Intn(4) == 0 {
				rs.Ranges = append(rs.Ranges, &rpc.Range{Start: lo, End: h - 1}, &rpc.Range{Start: h, End: hi})
				continue
			}
			rs.Ranges = append(rs.Ranges, &rpc.Range{Start: lo, End: hi})
		}
		lo = hi + 1
	}
	for a, rs := range m {
		x.r.Shuffle(len(rs.Ranges), func(i, j int) { rs.Ranges[i], rs.Ranges[j] = rs.Ranges[j], rs.Ranges[i] })
		if len(rs.Ranges) == 0 && x.r.Intn(2) == 0 {
			delete(m, a)
		}
	}
	return m
}

func (x *world) tell(t map[string][]string) {
	m := x.table(t)
	ns := []string{}
	for _, i := range x.r.Perm(len(x.nodes)) {
		n := x.nodes[i]
		if !n.up {
			continue
		}
		if _, err := rpc.NewOrchestrationClient(n.conn).SetRanges(ctx5(), &rpc.SetRangesRequest{Ranges: m}); err != nil {
			x.e.Log(R{"op": "stuck", "what": "SetRanges: " + err.Error(), "n": n.w})
			return
		}
		ns = append(ns, n.w)
	}
	x.follow(t, ns)
	x.e.Log(R{"op": "tell", "ns": ns, "t": x.full(t)})
}

func (x *world) full(t map[string][]string) R {
	out := R{}
	for _, s := range x.srcs {
		out[s] = append([]string{}, t[s]...)
	}
	return out
}

func (x *world) follow(t map[string][]string, ns []string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, n := range ns {
		x.route[n] = t
	}
	if len(x.nodes) == 1 {
		all := map[string][]string{}
		for _, s := range x.srcs {
			all[s] = []string{x.nodes[0].w}
		}
		x.route[x.nodes[0].w] = all
	}
}

// envelope i of a source: a metric m of value i, at second i.
func (x *world) envelope(src string, i int) *loggregator_v2.Envelope {
	e := &loggregator_v2.Envelope{SourceId: x.str[src], InstanceId: "0", Timestamp: x.base + int64(i)*second, Tags: map[string]string{"k": "v " + src}}
	switch i % 3 {
	case 0:
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{"m": {Unit: "u", Value: float64(i)}}}}
	case 1:
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "m", Total: uint64(i), Delta: 3}}
	default:
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: "m", Start: e.Timestamp, Stop: e.Timestamp + int64(i)}}
	}
	return e
}

// draft: the next envelopes of srcs, as the trace tells them.
func (x *world) draft(srcs []string, f func(src string, i int) *loggregator_v2.Envelope) (es []*loggregator_v2.Envelope, batch []R) {
	x.mu.Lock()
	defer x.mu.Unlock()
	batch = []R{}
	for _, s := range srcs {
		x.next++
		e := f(s, x.next)
		x.envs[x.next] = proto.Clone(e).(*loggregator_v2.Envelope)
		es = append(es, e)
		batch = append(batch, R{"src": s, "id": x.next})
	}
	return es, batch
}

// sent by a program, or by via itself, which is to be waited for where via leads it.
func (x *world) sent(via, by string, only bool, batch []R) {
	for _, b := range batch {
		s := b["src"].(string)
		owners := x.route[via][s]
		if only {
			owners = []string{via}
		}
		for _, o := range owners {
			if m := x.may[o]; m != nil {
				m[b["id"].(int)] = true
			}
			if n := x.node(o); n.up && (o == via || x.near[via+">"+o]) {
				if x.expect[o][s] == nil {
					x.expect[o][s] = map[int]string{}
				}
				x.expect[o][s][b["id"].(int)] = by
			}
		}
	}
}

func (x *world) send(via string, srcs []string, only bool) {
	if x.over() {
		return
	}
	es, batch := x.draft(srcs, x.envelope)
	req := &rpc.SendRequest{LocalOnly: only, Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}}
	_, err := rpc.NewIngressClient(x.node(via).conn).Send(ctx5(), req)
	x.mu.Lock()
	x.sent(via, via, only, batch)
	x.e.Log(R{"op": "send", "via": via, "only": only, "batch": batch, "err": err != nil})
	x.mu.Unlock()
}

// enough: ids are all that the driver waits for, at some owner that may have answered.
func (x *world) enough(via, src string, ids []int) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	got := map[int]bool{}
	for _, i := range ids {
		got[i] = true
	}
	owners := x.route[via][src]
	if x.has(owners, via) {
		owners = []string{via}
	}
	for _, o := range owners {
		ok := x.node(o).up
		for i := range got {
			ok = ok && x.may[o][i]
		}
		for i := range x.expect[o][src] {
			ok = ok && (got[i] || len(ids) == x.cap && i < ids[len(ids)-1])
		}
		if ok {
			return true
		}
	}
	return len(owners) == 0
}

func (x *world) once(via, src, how string) ([]int, error) {
	ids := []int{}
	c := x.node(via).conn
	if how == "query" {
		res, err := rpc.NewPromQLQuerierClient(c).InstantQuery(ctx5(), &rpc.PromQL_InstantQueryRequest{Query: fmt.Sprintf("m{source_id=%q}[1h]", x.str[src]), Time: fmt.Sprintf("%d.000", x.base/second+3000)})
		if err != nil {
			return ids, err
		}
		// what comes by syslog makes a series of its own
		for _, s := range res.GetMatrix().GetSeries() {
			last := 0
			for _, p := range s.GetPoints() {
				id := int(p.GetValue())
				if p.GetTime() != fmt.Sprintf("%d.000", x.base/second+int64(id)) || s.GetMetric()["source_id"] != x.str[src] {
					id = -1
				}
				if id < last {
					id = -1
				}
				last = id
				ids = append(ids, id)
			}
		}
		sort.Ints(ids)
		return ids, nil
	}
	res, err := rpc.NewEgressClient(c).Read(ctx5(), &rpc.ReadRequest{SourceId: x.str[src], Limit: 1000, EndTime: x.base + 1000000*second})
	if err != nil {
		return ids, err
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, e := range res.GetEnvelopes().GetBatch() {
		id := int((e.GetTimestamp() - x.base) / second)
		if w := x.envs[id]; w == nil || !proto.Equal(w, e) {
			id = -1
		}
		ids = append(ids, id)
	}
	return ids, nil
}

// read through a node; settled: once what was sent has had time to arrive.
func (x *world) read(via, src string, settled bool) {
	if x.over() {
		return
	}
	how := []string{"read", "read", "query"}[x.r.Intn(3)]
	var ids []int
	var err error
	some := func() bool {
		for _, o := range x.route[via][src] {
			if x.node(o).up && (o == via || x.has(x.route[o][src], o)) {
				return true
			}
		}
		return false
	}
	try := func() bool {
		ids, err = x.once(via, src, how)
		return !settled || err == nil && x.enough(via, src, ids) || err != nil && !some()
	}
	if how == "query" && !some() && x.r.Intn(16) > 0 { // a query takes seconds to give up
		how = "read"
	}
	tired := x.tired
	if !x.wait(20*time.Second, try) && tired {
		settled = false
	}
	if os := x.route[via][src]; len(os) > 1 && !x.has(os, via) { // whose answer it is is not known
		settled = false
	} else if err == nil && x.has(os, via) {
		x.mu.Lock()
		for _, id := range ids {
			if x.expect[via][src] == nil {
				x.expect[via][src] = map[int]string{}
			}
			if x.expect[via][src][id] == "" {
				x.expect[via][src][id] = via
			}
		}
		x.mu.Unlock()
	}
	rec := R{"op": "read", "how": how, "via": via, "src": src, "settled": settled, "err": err != nil, "ids": ids}
	if err != nil {
		rec["error"] = err.Error()
	} else if os := x.route[via][src]; len(os) == 1 {
		x.near[via+">"+os[0]] = true
	}
	x.e.Log(rec)
}

// warm: every node reaches all others, as far as the table lets it.
func (x *world) warm() {
	if x.over() {
		return
	}
	for _, v := range x.live() {
		for _, n := range x.live() {
			if v == n || x.near[v.w+">"+n.w] {
				continue
			}
			for _, s := range x.srcs {
				if os := x.route[v.w][s]; len(os) != 1 || os[0] != n.w || !x.has(x.route[n.w][s], n.w) {
					continue
				}
				ok := x.wait(30*time.Second, func() bool { _, err := x.once(v.w, s, "read"); return err == nil })
				if !ok {
					x.e.Log(R{"op": "stuck", "what": v.w + " does not reach " + n.w})
					return
				}
				x.read(v.w, s, true)
				break
			}
		}
	}
}

func (x *world) check() {
	for _, i := range x.r.Perm(len(x.nodes)) {
		if !x.nodes[i].up {
			continue
		}
		for _, k := range x.r.Perm(len(x.srcs)) {
			x.read(x.nodes[i].w, x.srcs[k], true)
		}
	}
}

// metas: what the nodes keep of meta is a second old at most, and of each other's another.
func (x *world) metas() {
	if x.check(); x.over() {
		return
	}
	time.Sleep(2400 * time.Millisecond)
	for _, only := range []bool{false, true} {
		for _, n := range x.live() {
			res, err := rpc.NewEgressClient(n.conn).Meta(ctx5(), &rpc.MetaRequest{LocalOnly: only})
			m := []R{}
			for s, i := range res.GetMeta() {
				w := "?" + s
				for _, k := range x.srcs {
					if x.str[k] == s {
						w = k
					}
				}
				m = append(m, R{"src": w, "count": i.GetCount(), "expired": i.GetExpired(), "lo": (i.GetOldestTimestamp() - x.base) / second, "hi": (i.GetNewestTimestamp() - x.base) / second})
			}
			x.e.Log(R{"op": "meta", "via": n.w, "only": only, "meta": m, "err": err != nil})
		}
	}
}

func newWorld(e *vt.Episode, r *rand.Rand, words []string, n, cap int) *world {
	x := &world{e: e, r: r, begin: time.Now(), cap: cap, base: (1500000000 + r.Int63n(2e8)) * second, str: map[string]string{}, route: map[string]map[string][]string{},
		envs: map[int]*loggregator_v2.Envelope{}, expect: map[string]map[string]map[int]string{}, may: map[string]map[int]bool{}, near: map[string]bool{}, dial: []grpc.DialOption{grpc.WithInsecure()}}
	x.srcs = words
	for i, w := range words {
		x.str[w] = fmt.Sprintf([]string{"app-%d-%x", "8e0c2a1b-1111-4000-8000-00000000000%d%x", "p/q %d %x"}[r.Intn(3)], i, r.Int31())
	}
	ns := []string{}
	for i := 0; i < n; i++ {
		ns = append(ns, fmt.Sprint(i))
		x.nodes = append(x.nodes, &node{w: fmt.Sprint(i)})
	}
	e.Cfg = R{"nodes": ns, "srcs": words, "cap": cap}
	return x
}

func (x *world) close() {
	for _, n := range x.nodes {
		if n.up {
			n.conn.Close()
			vt.Within(10*time.Second, n.stop)
		}
	}
}

var discard = log.New(ioutil.Discard, "", 0)

// library: nodes in this process, each at an address of its own that nobody else uses.
func library(e *vt.Episode, r *rand.Rand, ep int, words []string, n, cap int, hollow int) *world {
	x := newWorld(e, r, words, n, cap)
	var addrs []string
	for i, nd := range x.nodes {
		nd.addr = fmt.Sprintf("127.%d.%d.%d:%d", 10+ep/60000, (ep/250)%250+1, ep%250+1, 7000+i)
		if i == hollow { // an address that cannot even be dialled
			nd.addr = "dns:///" + nd.addr + ":"
		}
		addrs = append(addrs, nd.addr)
	}
	x.start = func(i int) func() {
		if i == hollow {
			return nil
		}
		opts := []cache.LogCacheOption{cache.WithAddr(addrs[i]), cache.WithMemoryLimit(100), cache.WithMaxPerSource(cap), cache.WithQueryTimeout(20 * time.Second)}
		if n > 1 || r.Intn(2) == 0 {
			opts = append(opts, cache.WithClustered(i, addrs, grpc.WithInsecure()))
		}
		c := cache.New(metrics.NewRegistry(discard), discard, opts...)
		c.Start()
		return func() { c.Close() }
	}
	return x
}

func strs(v interface{}) []string {
	out := []string{}
	for _, s := range v.([]interface{}) {
		out = append(out, s.(string))
	}
	return out
}

// pinned: beside a table for a and b every node owns a source of its own.
func (x *world) pinned(t map[string][]string) map[string][]string {
	for _, n := range x.nodes {
		t["w"+n.w] = []string{n.w}
	}
	return t
}

func (x *world) words(n int) []string {
	ws := []string{"a", "b"}
	for i := 0; i < n; i++ {
		ws = append(ws, fmt.Sprint("w", i))
	}
	return ws
}

func scenario(name string, ep, nodes int, ops []R) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		cap := []int{1000, 1000, 2}[r.Intn(3)]
		x := library(e, r, ep, (&world{}).words(nodes), nodes, cap, -1)
		defer x.close()
		for _, i := range r.Perm(nodes) {
			x.bring(x.nodes[i])
		}
		if x.over() {
			return
		}
		if nodes > 1 {
			x.tell(x.pinned(map[string][]string{}))
			x.warm()
		} else {
			x.follow(nil, nil)
		}
		for _, o := range ops {
			if x.over() {
				return
			}
			switch vt.S(o, "op") {
			case "tell":
				t := map[string][]string{}
				for s, v := range o["t"].(map[string]interface{}) {
					t[s] = strs(v)
				}
				x.tell(x.pinned(t))
				if r.Intn(3) > 0 {
					x.warm()
				}
			case "send":
				for k := []int{1, 1, 3}[r.Intn(3)]; k > 0; k-- {
					x.send(vt.S(o, "via"), strs(o["srcs"]), false)
				}
				if r.Intn(4) == 0 {
					x.read(x.live()[r.Intn(len(x.live()))].w, x.srcs[r.Intn(len(x.srcs))], false)
				}
			case "local":
				x.send(vt.S(o, "via"), []string{"a"}, true)
			case "check":
				x.check()
			case "down":
				x.end(x.node(vt.S(o, "n")))
			case "up":
				x.bring(x.node(vt.S(o, "n")))
				if nodes == 1 {
					x.follow(nil, nil)
				}
			}
		}
		x.metas()
	}
}

// storm: many senders at once, through all nodes, to many sources with any owners.
func storm(name string, ep int, hollow int) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		nodes := 2 + r.Intn(4)
		if hollow >= 0 {
			nodes = 3 + r.Intn(2)
		}
		words := []string{}
		for i := 0; i < 6+nodes; i++ {
			words = append(words, fmt.Sprint("s", i))
		}
		x := library(e, r, ep, words, nodes, []int{1000, 20}[r.Intn(2)], hollow)
		defer x.close()
		for _, i := range r.Perm(nodes) {
			x.bring(x.nodes[i])
		}
		for round := 0; round < 2; round++ {
			t := map[string][]string{}
			for i, s := range words {
				if i < nodes {
					t[s] = []string{fmt.Sprint(i)}
					continue
				}
				for _, o := range r.Perm(nodes)[:[]int{1, 1, 1, 0, 2, nodes}[r.Intn(6)]] {
					t[s] = append(t[s], fmt.Sprint(o))
				}
			}
			if x.over() {
				return
			}
			x.tell(t)
			x.warm()
			var wg sync.WaitGroup
			for k := 0; k < 8; k++ {
				via, seed := x.live()[r.Intn(len(x.live()))].w, r.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					rs := rand.New(rand.NewSource(seed))
					for j := 0; j < 1+rs.Intn(6); j++ {
						var ss []string
						for l := 0; l < 1+rs.Intn(20); l++ {
							ss = append(ss, words[rs.Intn(len(words))])
						}
						x.send(via, ss, false)
					}
				}()
			}
			wg.Wait()
			if x.check(); round == 0 && r.Intn(2) == 0 {
				x.metas()
			}
		}
		x.metas()
	}
}

func main() {
	vt.Open()
	defer vt.Close()
	if vt.Mode == "programs" {
		programs()
		return
	}
	var ts []vt.Task
	nodes := 3
	if os.Getenv("VERIF_NODES") == "1" {
		nodes = 1
	}
	for i, s := range vt.Scenarios() {
		name := fmt.Sprint("scn-", i)
		ts = append(ts, vt.Task{Name: name, Run: scenario(name, i, nodes, s)})
	}
	for i := 0; i < int(vt.N); i++ {
		name := fmt.Sprint("storm-", i)
		hollow := -1
		if i%8 == 7 {
			hollow = (i / 8) % 3
		}
		ts = append(ts, vt.Task{Name: name, Run: storm(name, 100000+i, hollow)})
	}
	vt.RunAll(ts, 48)
}
