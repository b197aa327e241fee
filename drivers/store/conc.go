package main

import (
	"fmt"
	"sort"
	"strconv"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
)

// hist records a concurrent history.
type hist struct {
	x  *h
	ck vt.Clock
	mu sync.Mutex
	wg sync.WaitGroup
	ev []stamped
	n  int
}

type stamped struct {
	at int64
	r  R
}

func (c *hist) add(at int64, r R) {
	c.mu.Lock()
	c.ev = append(c.ev, stamped{at, r})
	c.mu.Unlock()
}

// call runs f; what it returns goes into the call event. The call event is recorded
// when the call is over, under the stamp taken before it started.
func (c *hist) call(r R, f func() R) {
	c.mu.Lock()
	c.n++
	i := c.n
	c.mu.Unlock()
	t := c.ck.Tick()
	res := f()
	u := c.ck.Tick()
	r["op"], r["i"] = "call", i
	for k, v := range res {
		r[k] = v
	}
	c.add(t, r)
	c.add(u, R{"op": "ret", "i": i})
}

func (c *hist) spawn(f func()) {
	c.wg.Add(1)
	go func() { defer c.wg.Done(); f() }()
}

func (c *hist) put(src string, id, t int) {
	e := &loggregator_v2.Envelope{Timestamp: c.x.ns(t), SourceId: src, InstanceId: strconv.Itoa(id)}
	c.call(R{"k": "put", "src": src, "id": id, "t": t}, func() R { c.x.s.Put(e, src); return nil })
}

func (c *hist) get(src string) {
	c.call(R{"k": "get", "src": src}, func() R {
		ids := []int{}
		for _, e := range c.x.s.Get(src, time.Unix(0, c.x.ns(0)), time.Unix(0, c.x.ns(100000)), nil, nil, big, false) {
			id, _ := strconv.Atoi(e.GetInstanceId())
			ids = append(ids, id)
		}
		return R{"res": ids}
	})
}

func (c *hist) meta() {
	c.call(R{"k": "meta"}, func() R {
		res := []R{}
		for k, v := range c.x.s.Meta() {
			res = append(res, R{"src": k, "count": int(v.Count), "expired": int(v.Expired),
				"oldest": c.x.back(v.OldestTimestamp), "newest": c.x.back(v.NewestTimestamp)})
		}
		return R{"res": res}
	})
}

func (c *hist) prune(n int) {
	c.call(R{"k": "prune", "n": n}, func() R {
		<-c.x.p.arm(n)
		return nil
	})
}

func (c *hist) finish() {
	sort.Slice(c.ev, func(i, j int) bool { return c.ev[i].at < c.ev[j].at })
	for _, s := range c.ev {
		c.x.e.Log(s.r)
	}
}

// rest waits for everything and looks at the quiet store.
func (c *hist) rest(srcs []string) {
	c.wg.Wait()
	for _, s := range srcs {
		c.get(s)
	}
	c.meta()
	c.finish()
	<-c.x.p.arm(0)
	c.x.e.Log(R{"op": "rest", "expired": int(c.x.m.Get("log_cache_expired").Value()), "arg": int(c.x.p.arg),
		"size": int(c.x.m.Get("log_cache_store_size").Value())})
}

var concSrcs = []string{"a", "b"}

// forced holds the pruner inside its at-th removal (it then owns the lock of the source it
// removes from) until the calls with have reached that lock.
func forced(na, nb, n, at int, with []string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		x := newH(e, big, 1)
		e.Cfg["srcs"] = concSrcs
		c := &hist{x: x}
		id := 0
		for i := 0; i < na; i++ {
			id++
			c.put("a", id, 10+i)
		}
		for i := 0; i < nb; i++ {
			id++
			c.put("b", id, 20+i)
		}
		k := 0
		x.m.Get("log_cache_expired").SetHook(func(string, float64) {
			k++
			if k != at {
				return
			}
			for _, w := range with {
				id++
				i := id
				switch w {
				case "puta":
					c.spawn(func() { c.put("a", i, 30) })
				case "putb":
					c.spawn(func() { c.put("b", i, 30) })
				case "geta":
					c.spawn(func() { c.get("a") })
				case "meta":
					c.spawn(func() { c.meta() })
				}
			}
			time.Sleep(20 * time.Millisecond)
		})
		c.prune(n)
		c.rest(concSrcs)
	}
}

// during runs a prune while a put sits between counting and inserting its envelope.
func during(na int, n int) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		x := newH(e, big, 1)
		e.Cfg["srcs"] = concSrcs
		c := &hist{x: x}
		id := 0
		for i := 0; i < na; i++ {
			id++
			c.put("b", id, 10+i)
		}
		id++
		var once sync.Once
		x.m.Get("log_cache_store_size").SetHook(func(string, float64) {
			once.Do(func() {
				c.spawn(func() { c.prune(n) })
				c.spawn(func() { c.meta() })
				c.spawn(func() { c.get("a") })
				time.Sleep(700 * time.Millisecond)
			})
		})
		c.put("a", id, 5)
		c.rest(concSrcs)
	}
}

func randConc(name string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		max := 1 + r.Intn(4)
		x := newH(e, max, 1)
		e.Cfg["srcs"] = concSrcs
		c := &hist{x: x}
		id := 0
		for g := 0; g < 3; g++ {
			var fs []func()
			for k := 0; k < 3; k++ {
				s := concSrcs[r.Intn(2)]
				switch r.Intn(5) {
				case 0:
					fs = append(fs, func() { c.get(s) })
				case 1:
					fs = append(fs, func() { c.meta() })
				default:
					id++
					i, t := id, 1+r.Intn(5)
					fs = append(fs, func() { c.put(s, i, t) })
				}
			}
			c.spawn(func() {
				for _, f := range fs {
					f()
				}
			})
		}
		if r.Intn(2) == 0 {
			c.wg.Wait()
			c.prune(1 + r.Intn(3))
		}
		c.rest(concSrcs)
	}
}

// churn creates sources while expiration heaps are built and meta is read.
func churn(name string, n int) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		x := newH(e, 3, 1)
		e.Cfg["srcs"] = concSrcs
		stop := make(chan struct{})
		var wg, readers sync.WaitGroup
		for g := 0; g < 2; g++ {
			readers.Add(1)
			go func(g int) {
				defer readers.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if g == 0 {
						x.s.BuildExpirationHeap()
					} else {
						x.s.Meta()
					}
				}
			}(g)
		}
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < n; i++ {
					src := fmt.Sprintf("s%d", (i*7+g)%40)
					x.s.Put(&loggregator_v2.Envelope{Timestamp: x.ns(1 + i), SourceId: src, InstanceId: fmt.Sprintf("%d.%d", g, i)}, src)
				}
			}(g)
		}
		wg.Wait()
		close(stop)
		readers.Wait()
		put := make([]int, 40)
		for g := 0; g < 4; g++ {
			for i := 0; i < n; i++ {
				put[(i*7+g)%40]++
			}
		}
		m := x.s.Meta()
		r := R{"op": "bulk", "put": put, "size": int(x.m.Get("log_cache_store_size").Value()), "expired": int(x.m.Get("log_cache_expired").Value())}
		var held, exp, dist, meta, mexp []int
		var sorted []bool
		for k := range put {
			src := fmt.Sprintf("s%d", k)
			es := x.s.Get(src, time.Unix(0, x.ns(0)), time.Unix(0, x.ns(10000000)), nil, nil, big, false)
			ids := map[string]bool{}
			ok := true
			for i, e := range es {
				ids[e.GetInstanceId()] = true
				ok = ok && e.GetSourceId() == src && (i == 0 || es[i-1].GetTimestamp() <= e.GetTimestamp())
			}
			held, dist, sorted = append(held, len(es)), append(dist, len(ids)), append(sorted, ok)
			exp = append(exp, put[k]-len(es))
			meta, mexp = append(meta, int(m[src].Count)), append(mexp, int(m[src].Expired))
		}
		r["held"], r["exp"], r["distinct"], r["sorted"], r["meta"], r["mexp"] = held, exp, dist, sorted, meta, mexp
		e.Log(r)
	}
}

// births creates ever new sources next to a heap builder: a source just registered has no envelope yet.
func births(n int) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		for k := 0; k < 20; k++ {
			x := newH(e, 3, 1)
			e.Cfg["srcs"] = concSrcs
			stop := make(chan struct{})
			var wg, rd sync.WaitGroup
			for g := 0; g < 3; g++ {
				rd.Add(1)
				go func() {
					defer rd.Done()
					for {
						select {
						case <-stop:
							return
						default:
							x.s.BuildExpirationHeap()
						}
					}
				}()
			}
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := 0; i < n; i++ {
						src := fmt.Sprintf("n%d.%d", g, i)
						x.s.Put(&loggregator_v2.Envelope{Timestamp: x.ns(1 + i), SourceId: src}, src)
					}
				}(g)
			}
			wg.Wait()
			close(stop)
			rd.Wait()
			if len(x.s.Meta()) != 4*n {
				e.Log(R{"op": "sources lost", "n": len(x.s.Meta())})
			}
		}
	}
}

func concTasks() []vt.Task {
	var ts []vt.Task
	with := [][]string{{"puta"}, {"meta"}, {"geta"}, {"puta", "puta"}, {"puta", "meta"}, {"puta", "putb", "geta"}, {"meta", "putb"}}
	for na := 1; na <= 2; na++ {
		for nb := 0; nb <= 1; nb++ {
			for n := 1; n <= 3; n++ {
				for at := 1; at <= n && at <= na+nb; at++ {
					for wi, w := range with {
						ts = append(ts, vt.Task{Name: fmt.Sprintf("forced-%d-%d-%d-%d-%d", na, nb, n, at, wi), Run: forced(na, nb, n, at, w)})
					}
				}
			}
		}
	}
	for na := 0; na <= 2; na++ {
		for n := 1; n <= 3; n++ {
			ts = append(ts, vt.Task{Name: fmt.Sprintf("during-%d-%d", na, n), Run: during(na, n)})
		}
	}
	for i := int64(0); i < vt.N; i++ {
		n := fmt.Sprintf("rnd-conc-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: randConc(n)})
	}
	return ts
}

func stressTasks() []vt.Task {
	var ts []vt.Task
	for i := int64(0); i < vt.N; i++ {
		n := fmt.Sprintf("churn-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: churn(n, 3000)})
	}
	ts = append(ts, vt.Task{Name: "births", Run: births(300)})
	return ts
}
