package main

import (
	"context"
	"errors"
	"strconv"
	"sync"
	"sync/atomic"

	"code.cloudfoundry.org/log-cache/internal/routing"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
)

// Ranges by name; some share a bound.
var named = map[string][2]uint64{"a": {0, 9}, "b": {0, 10}, "c": {1, 10}, "d": {1 << 63, 1<<64 - 1}, "e": {7, 7}}

func rangeOf(n string) *rpc.Range { return &rpc.Range{Start: named[n][0], End: named[n][1]} }

func names(rs []*rpc.Range) []string {
	l := []string{}
	for _, r := range rs {
		k := name("?%v-%v", r.GetStart(), r.GetEnd())
		for n, v := range named {
			if r != nil && v[0] == r.Start && v[1] == r.End {
				k = n
			}
		}
		l = append(l, k)
	}
	return l
}

type setter struct {
	calls int
	in    *rpc.SetRangesRequest
	resp  *rpc.SetRangesResponse
	err   error
}

func (s *setter) SetRanges(ctx context.Context, in *rpc.SetRangesRequest) (*rpc.SetRangesResponse, error) {
	s.calls++
	s.in = in
	return s.resp, s.err
}

type held struct {
	i    int64
	resp *rpc.ListRangesResponse
}

func agentOp(e *vt.Episode, a *routing.OrchestratorAgent, id *int64, kind, r string) *held {
	ctx := context.Background()
	i := atomic.AddInt64(id, 1)
	e.Log(R{"op": "start", "i": i, "kind": kind, "r": r})
	switch kind {
	case "add":
		_, err := a.AddRange(ctx, &rpc.AddRangeRequest{Range: rangeOf(r)})
		e.Log(R{"op": "end", "i": i, "err": err != nil})
	case "remove":
		_, err := a.RemoveRange(ctx, &rpc.RemoveRangeRequest{Range: rangeOf(r)})
		e.Log(R{"op": "end", "i": i, "err": err != nil})
	case "list":
		resp, err := a.ListRanges(ctx, &rpc.ListRangesRequest{})
		e.Log(R{"op": "listed", "i": i, "err": err != nil, "rs": names(resp.GetRanges())})
		return &held{i, resp}
	}
	return nil
}

func agentSet(e *vt.Episode, n string) {
	r := vt.Rand(n)
	s := &setter{resp: &rpc.SetRangesResponse{}}
	if r.Intn(3) == 0 {
		s.resp, s.err = nil, errors.New("no table")
	}
	in := setReq(addrs(3), randTable(r, 3, 5))
	want := proto.Clone(in)
	resp, err := routing.NewOrchestratorAgent(s).SetRanges(context.Background(), in)
	e.Log(R{"op": "set", "calls": s.calls, "same": s.in != nil && proto.Equal(s.in, want), "back": resp == s.resp && err == s.err})
}

func agentTasks() []vt.Task {
	var ts []vt.Task
	seq := func(n string, ops [][2]string) vt.Task {
		return vt.Task{Name: n, Run: func(e *vt.Episode) {
			a := routing.NewOrchestratorAgent(&setter{})
			var id int64
			var hs []*held
			for _, o := range ops {
				if h := agentOp(e, a, &id, o[0], o[1]); h != nil {
					hs = append(hs, h)
				}
				for _, h := range hs {
					e.Log(R{"op": "again", "i": h.i, "rs": names(h.resp.GetRanges())})
				}
			}
			agentOp(e, a, &id, "list", "a")
			agentSet(e, n)
		}}
	}
	for i, s := range vt.Scenarios() {
		var ops [][2]string
		for _, o := range s {
			ops = append(ops, [2]string{vt.S(o, "op"), vt.S(o, "r")})
		}
		ts = append(ts, seq(name("gen-%d", i), ops))
	}
	for i := int64(0); i < vt.N; i++ {
		n := name("rnd-%d", i)
		r := vt.Rand(n)
		var ops [][2]string
		kinds := []string{"add", "add", "remove", "list"}
		for k := 5 + r.Intn(15); k > 0; k-- {
			ops = append(ops, [2]string{kinds[r.Intn(4)], string("abcde"[r.Intn(5)])})
		}
		ts = append(ts, seq(n, ops))
		c := name("conc-%d", i)
		ts = append(ts, vt.Task{Name: c, Run: func(e *vt.Episode) {
			a := routing.NewOrchestratorAgent(&setter{})
			var id int64
			var wg sync.WaitGroup
			var mu sync.Mutex
			var hs []*held
			for k := 0; k < 3; k++ {
				agentOp(e, a, &id, "add", string("abcde"[k]))
			}
			for g := 0; g < 3; g++ {
				rg := vt.Rand(c + strconv.Itoa(g))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 4; k++ {
						if h := agentOp(e, a, &id, kinds[rg.Intn(4)], string("abcde"[rg.Intn(3)])); h != nil {
							mu.Lock()
							hs = append(hs, h)
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
			agentOp(e, a, &id, "list", "a")
			for _, h := range hs {
				e.Log(R{"op": "again", "i": h.i, "rs": names(h.resp.GetRanges())})
			}
		}})
	}
	return ts
}
