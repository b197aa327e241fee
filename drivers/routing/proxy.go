package main

import (
	"context"
	"errors"
	"io/ioutil"
	"log"
	"math/rand"
	"strconv"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/routing"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/status"
)

var quiet = log.New(ioutil.Discard, "", 0)

// ---------------------------------------------------------------- ingress

func envelope(r *rand.Rand, src string, id int) *loggregator_v2.Envelope {
	e := &loggregator_v2.Envelope{SourceId: src, Timestamp: int64(id), InstanceId: strconv.Itoa(r.Intn(3)), Tags: map[string]string{"t": strconv.Itoa(r.Intn(99))}}
	switch r.Intn(3) {
	case 0:
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(strconv.Itoa(r.Int()))}}
	case 1:
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "c", Total: r.Uint64()}}
	}
	return e
}

type ingressRun struct {
	e     *vt.Episode
	mu    sync.Mutex
	orig  map[int]*loggregator_v2.Envelope
	reqOf map[int]int
	cur   int
	fail  map[int]error
}

func (g *ingressRun) client(n int) rpc.IngressClient {
	return routing.IngressClientFunc(func(ctx context.Context, r *rpc.SendRequest, opts ...grpc.CallOption) (*rpc.SendResponse, error) {
		g.mu.Lock()
		defer g.mu.Unlock()
		ids, same, i := []int{}, true, g.cur
		for _, x := range r.GetEnvelopes().GetBatch() {
			id := int(x.GetTimestamp())
			ids = append(ids, id)
			same = same && g.orig[id] != nil && proto.Equal(x, g.orig[id])
			i = g.reqOf[id]
		}
		res := "ok"
		if g.fail[n] != nil {
			res = g.fail[n].Error()
		}
		g.e.Log(R{"op": "recv", "i": i, "n": n, "ids": ids, "marked": r.LocalOnly, "same": same, "res": res})
		if g.fail[n] != nil {
			return nil, g.fail[n]
		}
		return &rpc.SendResponse{}, nil
	})
}

type ireq struct {
	srcs []string
	only bool
	none bool // no batch at all
	fail []int
}

func ingressEp(e *vt.Episode, n string, nodes, here int, route map[string][]int, reqs []ireq, par bool) {
	r := vt.Rand(n)
	g := &ingressRun{e: e, orig: map[int]*loggregator_v2.Envelope{}, reqOf: map[int]int{}, fail: map[int]error{}}
	var cs []rpc.IngressClient
	for k := 0; k < nodes; k++ {
		cs = append(cs, g.client(k))
	}
	rt := R{"": []int{}}
	for s, ns := range route {
		rt[s] = append([]int{}, ns...)
	}
	e.Cfg = R{"nodes": nodes, "here": here, "route": rt}
	p := routing.NewIngressReverseProxy(func(s string) []int { return route[s] }, cs, here, quiet)
	id := 0
	var wg sync.WaitGroup
	if par {
		for _, k := range reqs[0].fail {
			g.fail[k] = errors.New("down " + strconv.Itoa(k))
		}
	}
	for i, q := range reqs {
		i, q := i, q
		if !par {
			g.fail = map[int]error{}
			for _, k := range q.fail {
				g.fail[k] = errors.New("down " + strconv.Itoa(k))
			}
		}
		in := &rpc.SendRequest{LocalOnly: q.only}
		if !q.none {
			in.Envelopes = &loggregator_v2.EnvelopeBatch{}
		}
		batch := []R{}
		for _, s := range q.srcs {
			id++
			x := envelope(r, s, id)
			g.mu.Lock()
			g.orig[id] = proto.Clone(x).(*loggregator_v2.Envelope)
			g.reqOf[id] = i
			g.mu.Unlock()
			in.Envelopes.Batch = append(in.Envelopes.Batch, x)
			batch = append(batch, R{"id": id, "src": s})
		}
		send := func(i int) {
			e.Log(R{"op": "send", "i": i, "batch": batch, "only": q.only})
			_, err := p.Send(context.Background(), in)
			res := "ok"
			if err != nil {
				res = err.Error()
			}
			e.Log(R{"op": "sent", "i": i, "res": res})
		}
		if par {
			wg.Add(1)
			go func(i int) { defer wg.Done(); send(i) }(i)
		} else {
			g.cur = i
			send(i)
		}
	}
	wg.Wait()
}

func subset(r *rand.Rand, n, max int) []int {
	k := r.Intn(max + 1)
	if k > n {
		k = n
	}
	return append([]int{}, r.Perm(n)[:k]...)
}

func ingressTasks() []vt.Task {
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		n, o := name("gen-%d", i), s[0]
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			q := ireq{only: vt.B(o, "only"), fail: ints(o, "fail")}
			for _, x := range o["batch"].([]interface{}) {
				q.srcs = append(q.srcs, x.(string))
			}
			q.none = len(q.srcs) == 0 && len(n)%2 == 0
			ingressEp(e, n, 3, 0, map[string][]int{"a": ints(o, "a"), "b": ints(o, "b")}, []ireq{q}, false)
		}})
	}
	for i := int64(0); i < vt.N; i++ {
		n := name("rnd-%d", i)
		par := i%4 == 0
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			r := vt.Rand(n)
			nodes := 1 + r.Intn(6)
			route := map[string][]int{}
			var srcs []string
			for k := 1 + r.Intn(6); k > 0; k-- {
				s := name("src-%d", k)
				srcs = append(srcs, s)
				route[s] = subset(r, nodes, 3)
			}
			if r.Intn(3) == 0 {
				srcs = append(srcs, "")
				route[""] = subset(r, nodes, 3)
			}
			var reqs []ireq
			for k := 1 + r.Intn(6); k > 0; k-- {
				q := ireq{only: r.Intn(4) == 0, none: !par && r.Intn(8) == 0}
				if r.Intn(2) == 0 {
					q.fail = subset(r, nodes, nodes)
				}
				m := r.Intn(12)
				if par {
					m++
				}
				for ; m > 0 && !q.none; m-- {
					q.srcs = append(q.srcs, srcs[r.Intn(len(srcs))])
				}
				reqs = append(reqs, q)
			}
			ingressEp(e, n, nodes, r.Intn(nodes), route, reqs, par)
		}})
	}
	return ts
}

func ints(o R, k string) []int {
	l := []int{}
	for _, x := range o[k].([]interface{}) {
		l = append(l, int(x.(float64)))
	}
	return l
}

// ---------------------------------------------------------------- egress

const period = 40 * time.Millisecond

type egressRun struct {
	e    *vt.Episode
	r    *rand.Rand
	mu   sync.Mutex
	ver  []int
	down []bool
	want *rpc.ReadRequest
	resp *rpc.ReadResponse
	t0   time.Time
}

type egressNode struct {
	g *egressRun
	n int
}

func (c egressNode) Read(ctx context.Context, in *rpc.ReadRequest, opts ...grpc.CallOption) (*rpc.ReadResponse, error) {
	c.g.mu.Lock()
	defer c.g.mu.Unlock()
	res := name("node %d", c.n)
	if c.g.down[c.n] {
		res = name("down %d", c.n)
	}
	c.g.e.Log(R{"op": "readask", "n": c.n, "same": proto.Equal(in, c.g.want), "res": res})
	if c.g.down[c.n] {
		return nil, errors.New(res)
	}
	c.g.resp = &rpc.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{{SourceId: res, Timestamp: int64(c.g.r.Intn(1000))}}}}
	return proto.Clone(c.g.resp).(*rpc.ReadResponse), nil
}

func (c egressNode) Meta(ctx context.Context, in *rpc.MetaRequest, opts ...grpc.CallOption) (*rpc.MetaResponse, error) {
	c.g.mu.Lock()
	defer c.g.mu.Unlock()
	if c.g.down[c.n] {
		c.g.e.Log(R{"op": "metaask", "n": c.n, "marked": in.LocalOnly, "ok": false, "val": []R{}})
		return nil, errors.New("down")
	}
	v := int64(c.g.ver[c.n])
	m := map[string]*rpc.MetaInfo{
		"s":              {Count: v, Expired: 1, OldestTimestamp: 2, NewestTimestamp: 3 + v},
		name("%d", c.n):  {Count: v, Expired: v, OldestTimestamp: 5, NewestTimestamp: v},
		name("x%d", v%5): {Count: v},
	}
	if v%4 == 3 {
		m = nil
	}
	c.g.e.Log(R{"op": "metaask", "n": c.n, "marked": in.LocalOnly, "ok": true, "val": metaEv(m)})
	return &rpc.MetaResponse{Meta: m}, nil
}

func metaEv(m map[string]*rpc.MetaInfo) []R {
	l := []R{}
	for s, i := range m {
		l = append(l, R{"src": s, "v": name("%d/%d/%d/%d", i.GetCount(), i.GetExpired(), i.GetOldestTimestamp(), i.GetNewestTimestamp())})
	}
	return l
}

func (g *egressRun) floor() int64 { return int64(time.Since(g.t0) / time.Millisecond) }
func (g *egressRun) ceil() int64  { return int64(time.Since(g.t0)/time.Millisecond) + 1 }

func egressEp(e *vt.Episode, n string, nodes, here int, route map[string][]int, ops []R, opts bool) {
	r := vt.Rand(n)
	g := &egressRun{e: e, r: r, ver: make([]int, nodes), down: make([]bool, nodes), t0: time.Now()}
	var cs []rpc.EgressClient
	for k := 0; k < nodes; k++ {
		cs = append(cs, egressNode{g, k})
	}
	d := period
	var os []routing.EgressReverseProxyOption
	if opts {
		os = append(os, routing.WithMetaCacheDuration(period))
	} else {
		d = time.Second // the documented default
	}
	e.Cfg = R{"nodes": nodes, "here": here, "period": int64(d / time.Millisecond)}
	p := routing.NewEgressReverseProxy(func(s string) []int { return route[s] }, cs, here, quiet, os...)
	next := 0
	for _, o := range ops {
		switch vt.S(o, "op") {
		case "wait":
			if vt.I(o, "d") > 1 {
				time.Sleep(d + 3*time.Millisecond)
			} else {
				time.Sleep(d / 3)
			}
		case "change":
			next++
			g.ver[vt.I(o, "n")] = next
		case "flip":
			g.down[vt.I(o, "n")] = !g.down[vt.I(o, "n")]
		case "read":
			src := vt.S(o, "src")
			in := &rpc.ReadRequest{SourceId: src, StartTime: r.Int63(), EndTime: r.Int63(), Limit: int64(r.Intn(2000) - 500), Descending: r.Intn(2) == 0,
				NameFilter: "f" + strconv.Itoa(r.Intn(9)), EnvelopeTypes: []rpc.EnvelopeType{rpc.EnvelopeType(r.Intn(6))}}
			g.want = proto.Clone(in).(*rpc.ReadRequest)
			g.resp = nil
			e.Log(R{"op": "read", "owners": append([]int{}, route[src]...)})
			resp, err := p.Read(context.Background(), in)
			res := "other"
			switch {
			case err != nil && g.resp == nil && status.Code(err).String() == "Unavailable":
				res = "unavailable"
			case err != nil:
				res = err.Error()
			case g.resp != nil && proto.Equal(resp, g.resp):
				res = resp.Envelopes.Batch[0].SourceId
			}
			e.Log(R{"op": "readend", "res": res})
		case "meta":
			e.Log(R{"op": "meta", "only": vt.B(o, "only"), "t": g.floor()})
			resp, err := p.Meta(context.Background(), &rpc.MetaRequest{LocalOnly: vt.B(o, "only")})
			e.Log(R{"op": "metaend", "err": err != nil, "t": g.ceil(), "val": metaEv(resp.GetMeta())})
		}
	}
}

func egressTasks() []vt.Task {
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		n, s := name("gen-%d", i), s
		here := i % 2
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			for _, o := range s { // the specification's node 0 is the local one
				if _, ok := o["n"]; ok && here == 1 {
					o["n"] = float64(1 - vt.I(o, "n"))
				}
			}
			egressEp(e, n, 2, here, nil, s, true)
		}})
	}
	for i := int64(0); i < vt.N; i++ {
		n := name("rnd-%d", i)
		i := i
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			r := vt.Rand(n)
			nodes := 1 + r.Intn(5)
			route := map[string][]int{}
			for k := 0; k < 4; k++ {
				route[strconv.Itoa(k)] = subset(r, nodes, 3)
			}
			var ops []R
			for k := 5 + r.Intn(20); k > 0; k-- {
				switch r.Intn(8) {
				case 0, 1, 2:
					ops = append(ops, R{"op": "read", "src": strconv.Itoa(r.Intn(5))})
				case 3, 4:
					ops = append(ops, R{"op": "meta", "only": r.Intn(3) == 0})
				case 5:
					ops = append(ops, R{"op": "change", "n": r.Intn(nodes)})
				case 6:
					ops = append(ops, R{"op": "flip", "n": r.Intn(nodes)})
				case 7:
					ops = append(ops, R{"op": "wait", "d": 1 + r.Intn(3)})
				}
			}
			if i%50 == 0 { // default period
				ops = []R{{"op": "meta", "only": false}, {"op": "meta", "only": true}, {"op": "change", "n": 0}, {"op": "wait", "d": 2},
					{"op": "meta", "only": false}, {"op": "meta", "only": true}}
			}
			egressEp(e, n, nodes, r.Intn(nodes), route, ops, i%50 != 0)
		}})
	}
	return ts
}
