// Driver for the scheduler: real scheduler, fake nodes over gRPC.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"net"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/log-cache/internal/scheduler"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
)

type R = vt.R

// cluster is what the fake nodes share: one lock makes events and state agree.
type cluster struct {
	mu    sync.Mutex
	e     *vt.Episode
	nodes []*node
	addr  map[string]int
	lead  bool
	over  bool
	done  chan struct{}
}

type node struct {
	c     *cluster
	n     int
	held  []rpc.Range
	down  bool
	lists int64
}

func id(lo, hi uint64) string { return fmt.Sprintf("%d-%d", lo, hi) }

var errDown = errors.New("node is down")

// enter reports whether the node answers, and logs f while nothing else happens.
func (n *node) enter(ctx context.Context, f func(ok bool) error) error {
	n.c.mu.Lock()
	if n.c.over {
		n.c.mu.Unlock()
		select {
		case <-ctx.Done():
		case <-n.c.done:
		}
		return errDown
	}
	defer n.c.mu.Unlock()
	err := f(!n.down)
	if n.down {
		return errDown
	}
	return err
}

func (n *node) AddRange(ctx context.Context, in *rpc.AddRangeRequest) (*rpc.AddRangeResponse, error) {
	return &rpc.AddRangeResponse{}, n.enter(ctx, func(ok bool) error {
		r := in.GetRange()
		n.c.e.Log(R{"op": "add", "n": n.n, "r": id(r.GetStart(), r.GetEnd())})
		if ok {
			for _, x := range n.held {
				if x.Start == r.GetStart() && x.End == r.GetEnd() {
					return nil
				}
			}
			n.held = append(n.held, rpc.Range{Start: r.GetStart(), End: r.GetEnd()})
		}
		return nil
	})
}

func (n *node) RemoveRange(ctx context.Context, in *rpc.RemoveRangeRequest) (*rpc.RemoveRangeResponse, error) {
	return &rpc.RemoveRangeResponse{}, n.enter(ctx, func(ok bool) error {
		r := in.GetRange()
		n.c.e.Log(R{"op": "remove", "n": n.n, "r": id(r.GetStart(), r.GetEnd())})
		for i, x := range n.held {
			if ok && x.Start == r.GetStart() && x.End == r.GetEnd() {
				n.held = append(n.held[:i:i], n.held[i+1:]...)
				break
			}
		}
		return nil
	})
}

func (n *node) ListRanges(ctx context.Context, in *rpc.ListRangesRequest) (*rpc.ListRangesResponse, error) {
	resp := &rpc.ListRangesResponse{}
	return resp, n.enter(ctx, func(ok bool) error {
		rs := []string{}
		for _, x := range n.held {
			x := x
			rs = append(rs, id(x.Start, x.End))
			resp.Ranges = append(resp.Ranges, &x)
		}
		if !ok {
			rs = []string{}
		}
		n.c.e.Log(R{"op": "list", "n": n.n, "ok": ok, "rs": rs})
		atomic.AddInt64(&n.lists, 1)
		return nil
	})
}

func (n *node) SetRanges(ctx context.Context, in *rpc.SetRangesRequest) (*rpc.SetRangesResponse, error) {
	return &rpc.SetRangesResponse{}, n.enter(ctx, func(ok bool) error {
		t, known := []R{}, true
		for a, rs := range in.Ranges {
			m, there := n.c.addr[a]
			known = known && there
			for _, r := range rs.GetRanges() {
				t = append(t, R{"n": m, "r": id(r.GetStart(), r.GetEnd())})
			}
		}
		n.c.e.Log(R{"op": "tell", "n": n.n, "t": t, "known": known})
		return nil
	})
}

func limbs(v uint64) []uint64 {
	return []uint64{v & 0xffff, v >> 16 & 0xffff, v >> 32 & 0xffff, v >> 48}
}

// settle waits for some rounds without a change and notes the state.
func (c *cluster) settle() {
	c.mu.Lock()
	base := make([]int64, len(c.nodes))
	for i, n := range c.nodes {
		base[i] = atomic.LoadInt64(&n.lists)
	}
	c.mu.Unlock()
	ok := vt.Eventually(20*time.Second, func() bool {
		for i, n := range c.nodes {
			if atomic.LoadInt64(&n.lists) < base[i]+10 {
				return false
			}
		}
		return true
	})
	c.mu.Lock()
	defer c.mu.Unlock()
	if !ok {
		c.e.Log(R{"op": "stuck"})
		return
	}
	var rs []rpc.Range
	seen := map[string]bool{}
	for _, n := range c.nodes {
		if n.down {
			continue
		}
		for _, x := range n.held {
			if k := id(x.Start, x.End); !seen[k] {
				seen[k] = true
				rs = append(rs, x)
			}
		}
	}
	sort.Slice(rs, func(i, j int) bool {
		return rs[i].Start < rs[j].Start || rs[i].Start == rs[j].Start && rs[i].End < rs[j].End
	})
	parts := []R{}
	for _, x := range rs {
		parts = append(parts, R{"r": id(x.Start, x.End), "lo": limbs(x.Start), "hi": limbs(x.End)})
	}
	c.e.Log(R{"op": "settled", "leader": c.lead, "parts": parts})
}

func (c *cluster) change(o R) {
	c.mu.Lock()
	defer c.mu.Unlock()
	switch op := vt.S(o, "op"); op {
	case "leader":
		c.lead = vt.B(o, "v")
	case "fail", "recover", "forget":
		k := vt.I(o, "n") - 1
		if k >= len(c.nodes) {
			return
		}
		n := c.nodes[k]
		live := 0
		for _, x := range c.nodes {
			if !x.down {
				live++
			}
		}
		if op == "fail" && (n.down || live < 2) || op == "recover" && !n.down {
			return
		}
		switch op {
		case "fail":
			n.down = true
		case "recover":
			n.down = false
		case "forget":
			n.held = nil
		}
		c.e.Log(R{"op": op, "n": n.n})
	}
}

func episode(e *vt.Episode, name string, nodes, count, factor int, foreign, leader bool, groups [][]R) {
	r := vt.Rand(name)
	c := &cluster{e: e, addr: map[string]int{}, lead: leader, done: make(chan struct{})}
	var addrs []string
	init := [][]string{}
	for k := 1; k <= nodes; k++ {
		n := &node{c: c, n: k}
		ids := []string{}
		if foreign {
			x := uint64(math.MaxUint64)/uint64(count+1) - 1
			for j := r.Intn(4); j > 0; j-- {
				lo := x * uint64(j)
				n.held = append(n.held, rpc.Range{Start: lo, End: lo + x})
				ids = append(ids, id(lo, lo+x))
			}
		}
		init = append(init, ids)
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			vt.Fatal("%s", err)
		}
		srv := grpc.NewServer()
		rpc.RegisterOrchestrationServer(srv, n)
		go srv.Serve(lis)
		c.nodes = append(c.nodes, n)
		addrs = append(addrs, lis.Addr().String())
		c.addr[lis.Addr().String()] = k
	}
	e.Cfg = R{"nodes": nodes, "count": count, "factor": factor, "init": init}
	opts := []scheduler.SchedulerOption{
		scheduler.WithSchedulerInterval(8 * time.Millisecond),
		scheduler.WithSchedulerCount(count),
		scheduler.WithSchedulerReplicationFactor(factor),
		scheduler.WithSchedulerLeadership(func() bool {
			c.mu.Lock()
			defer c.mu.Unlock()
			if !c.over {
				e.Log(R{"op": "leader", "v": c.lead})
			}
			return c.lead
		}),
	}
	scheduler.NewScheduler(addrs, opts...).Start()
	c.settle()
	for _, g := range groups {
		for _, o := range g {
			c.change(o)
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			}
		}
		c.settle()
	}
	c.mu.Lock()
	c.over = true // the scheduler cannot be stopped; what it still does finds nobody
	c.mu.Unlock()
}

func main() {
	vt.Open()
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		n, s := fmt.Sprintf("gen-%d", i), s
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			r := vt.Rand(n)
			var groups [][]R
			for _, o := range s {
				if len(groups) == 0 || r.Intn(2) == 0 {
					groups = append(groups, nil)
				}
				groups[len(groups)-1] = append(groups[len(groups)-1], o)
			}
			episode(e, n, 3, 1+r.Intn(4), 1+r.Intn(3), r.Intn(3) == 0, len(n)%3 == 0 || r.Intn(2) == 0, append(groups, []R{{"op": "leader", "v": true}}))
		}})
	}
	for i := int64(0); i < vt.N; i++ {
		n := fmt.Sprintf("rnd-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			r := vt.Rand(n)
			nodes := 1 + r.Intn(5)
			count := []int{1, 2, 3, 4, 5, 7, 10, 16, 33, 100}[r.Intn(10)]
			var groups [][]R
			lead := r.Intn(4) > 0
			l := lead
			for g := r.Intn(4); g > 0; g-- {
				var ops []R
				for k := 1 + r.Intn(3); k > 0; k-- {
					o := R{"op": []string{"fail", "recover", "recover", "forget"}[r.Intn(4)], "n": 1 + r.Intn(nodes)}
					if r.Intn(4) == 0 {
						l = !l
						o = R{"op": "leader", "v": l}
					}
					ops = append(ops, o)
				}
				groups = append(groups, ops)
			}
			episode(e, n, nodes, count, 1+r.Intn(nodes+1), r.Intn(3) == 0, lead, groups)
		}})
	}
	vt.RunAll(ts, 16)
	vt.Close()
}
