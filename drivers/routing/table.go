package main

import (
	"context"
	"math"
	"math/rand"
	"strconv"
	"sync"
	"sync/atomic"

	"code.cloudfoundry.org/log-cache/internal/routing"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

type rng struct {
	node   int
	lo, hi uint64
}

var maps = [][]uint64{
	{0, 1, 2, math.MaxUint64},
	{0, 1<<63 - 1, 1 << 63, math.MaxUint64},
	{5, 6, 7, 8},
	{0, math.MaxUint64 - 2, math.MaxUint64 - 1, math.MaxUint64},
	{1 << 31, 1 << 32, 1<<32 + 1, 1 << 53},
}

func hasher(s string) uint64 { v, _ := strconv.ParseUint(s, 10, 64); return v }

func addrs(n int) []string {
	var a []string
	for i := 0; i < n; i++ {
		a = append(a, name("10.0.%d.7:8080", (i*7)%10))
	}
	return a
}

func setReq(as []string, t []rng) *rpc.SetRangesRequest {
	in := &rpc.SetRangesRequest{Ranges: map[string]*rpc.Ranges{}}
	for _, r := range t {
		a := as[r.node]
		if in.Ranges[a] == nil {
			in.Ranges[a] = &rpc.Ranges{}
		}
		in.Ranges[a].Ranges = append(in.Ranges[a].Ranges, &rpc.Range{Start: r.lo, End: r.hi})
	}
	return in
}

func tableEv(t []rng, rk *ranks) []R {
	l := []R{}
	for _, r := range t {
		l = append(l, R{"node": r.node, "lo": rk.of(r.lo), "hi": rk.of(r.hi)})
	}
	return l
}

func around(v uint64) []uint64 {
	vs := []uint64{v}
	if v > 0 {
		vs = append(vs, v-1)
	}
	if v < math.MaxUint64 {
		vs = append(vs, v+1)
	}
	return vs
}

func tableSeq(e *vt.Episode, nodes int, tables [][]rng, extra []uint64) {
	var qs []uint64
	for _, t := range tables {
		for _, r := range t {
			qs = append(qs, around(r.lo)...)
			qs = append(qs, around(r.hi)...)
		}
	}
	rk := newRanks(append(append(qs, extra...), 0, math.MaxUint64)...)
	as := addrs(nodes)
	rt := routing.NewRoutingTable(as, hasher)
	id := 0
	for k := -1; k < len(tables); k++ {
		if k >= 0 {
			id++
			e.Log(R{"op": "set", "i": id, "t": tableEv(tables[k], rk)})
			_, err := rt.SetRanges(context.Background(), setReq(as, tables[k]))
			e.Log(R{"op": "setend", "i": id, "err": err != nil})
		}
		for _, h := range rk.vs {
			id++
			e.Log(R{"op": "look", "i": id, "h": rk.of(h)})
			res := append([]int{}, rt.Lookup(strconv.FormatUint(h, 10))...)
			e.Log(R{"op": "lookend", "i": id, "res": res})
		}
	}
}

func limbs(v uint64) []uint64 {
	return []uint64{v & 0xffff, v >> 16 & 0xffff, v >> 32 & 0xffff, v >> 48}
}

func randU64(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return r.Uint64()
	case 1:
		return uint64(r.Intn(4))
	case 2:
		return math.MaxUint64 - uint64(r.Intn(4))
	}
	return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
}

func randTable(r *rand.Rand, nodes, max int) []rng {
	t := []rng{}
	switch r.Intn(3) {
	case 0: // an even split, as the scheduler does it, replicated
		n := 1 + r.Intn(max)
		x := uint64(math.MaxUint64) / uint64(n)
		lo := uint64(0)
		for i := 0; i < n; i++ {
			hi := lo + x
			if i == n-1 {
				hi = math.MaxUint64
			}
			for _, nd := range r.Perm(nodes)[:1+r.Intn(nodes)] {
				t = append(t, rng{nd, lo, hi})
			}
			lo = hi + 1
		}
	default:
		for i := r.Intn(max + 1); i > 0; i-- {
			a, b := randU64(r), randU64(r)
			if a > b && r.Intn(8) > 0 {
				a, b = b, a
			}
			t = append(t, rng{r.Intn(nodes), a, b})
		}
		if len(t) > 0 && r.Intn(3) == 0 {
			t = append(t, t[r.Intn(len(t))])
		}
	}
	r.Shuffle(len(t), func(i, j int) { t[i], t[j] = t[j], t[i] })
	return t
}

func tableTasks() []vt.Task {
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		i, s := i, s
		ts = append(ts, vt.Task{Name: name("gen-%d", i), Run: func(e *vt.Episode) {
			m := maps[i%len(maps)]
			var tables [][]rng
			for _, o := range s {
				t := []rng{}
				for _, x := range o["t"].([]interface{}) {
					q := R(x.(map[string]interface{}))
					t = append(t, rng{vt.I(q, "node"), m[vt.I(q, "lo")], m[vt.I(q, "hi")]})
				}
				tables = append(tables, t)
			}
			tableSeq(e, 2+i%3, tables, nil)
		}})
	}
	for i := int64(0); i < vt.N; i++ {
		n := name("rnd-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			r := vt.Rand(n)
			nodes := 1 + r.Intn(5)
			var tables [][]rng
			for k := 1 + r.Intn(3); k > 0; k-- {
				tables = append(tables, randTable(r, nodes, 8))
			}
			tableSeq(e, nodes, tables, []uint64{r.Uint64(), r.Uint64()})
		}})
		c := name("conc-%d", i)
		ts = append(ts, vt.Task{Name: c, Run: func(e *vt.Episode) { tableConc(e, c) }})
		s := name("static-%d", i)
		ts = append(ts, vt.Task{Name: s, Run: func(e *vt.Episode) {
			r := vt.Rand(s)
			m := 1 + r.Intn(12)
			if r.Intn(4) == 0 {
				m = 1 + r.Intn(30000)
			}
			sl := routing.NewStaticLookup(m, hasher)
			x := uint64(math.MaxUint64) / uint64(m)
			var hs []uint64
			for k := 0; k < 6; k++ {
				hs = append(hs, around(uint64(r.Intn(m))*x)...)
				hs = append(hs, r.Uint64())
			}
			hs = append(hs, 0, math.MaxUint64)
			for _, h := range hs {
				e.Log(R{"op": "static", "n": m, "h": limbs(h), "i": sl.Lookup(strconv.FormatUint(h, 10))})
			}
		}})
	}
	return ts
}

// tableConc looks up while tables change.
func tableConc(e *vt.Episode, n string) {
	r := vt.Rand(n)
	nodes := 2 + r.Intn(3)
	var tables [][]rng
	var vs []uint64
	for k := 4 + r.Intn(4); k > 0; k-- {
		t := randTable(r, nodes, 4)
		for _, x := range t {
			vs = append(vs, x.lo, x.hi)
		}
		tables = append(tables, t)
	}
	vs = append(vs, 0, math.MaxUint64, r.Uint64())
	rk := newRanks(vs...)
	as := addrs(nodes)
	rt := routing.NewRoutingTable(as, hasher)
	var id int64
	var wg sync.WaitGroup
	stop := int32(0)
	for g := 0; g < 3; g++ {
		rg := vt.Rand(n + strconv.Itoa(g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 25 && (k < 5 || atomic.LoadInt32(&stop) == 0); k++ {
				i := atomic.AddInt64(&id, 1)
				h := rk.vs[rg.Intn(len(rk.vs))]
				e.Log(R{"op": "look", "i": i, "h": rk.of(h)})
				res := append([]int{}, rt.Lookup(strconv.FormatUint(h, 10))...)
				e.Log(R{"op": "lookend", "i": i, "res": res})
			}
		}()
	}
	for _, t := range tables {
		i := atomic.AddInt64(&id, 1)
		in := setReq(as, t)
		e.Log(R{"op": "set", "i": i, "t": tableEv(t, rk)})
		_, err := rt.SetRanges(context.Background(), in)
		e.Log(R{"op": "setend", "i": i, "err": err != nil})
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
}
