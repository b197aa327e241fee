// Driver for the prune consultant and the memory analyzer.
package main

import (
	"bufio"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/log-cache/internal/cache"
	"code.cloudfoundry.org/log-cache/internal/cache/store"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
)

type R = vt.R

type gauge struct {
	mu sync.Mutex
	vs []float64
}

func (g *gauge) Add(float64) {}
func (g *gauge) Set(v float64) {
	g.mu.Lock()
	g.vs = append(g.vs, v)
	g.mu.Unlock()
}
func (g *gauge) take() []float64 {
	g.mu.Lock()
	defer g.mu.Unlock()
	vs := g.vs
	g.vs = nil
	return vs
}

type reading struct{ h, t int }

// memory gives its readings one after the other, the last one again and again.
type memory struct {
	unit  uint64
	plan  []reading
	given []reading
}

func (m *memory) Memory() (uint64, uint64, uint64) {
	r := m.plan[0]
	if len(m.plan) > 1 {
		m.plan = m.plan[1:]
	}
	m.given = append(m.given, r)
	return uint64(r.h) * m.unit, uint64(r.t) * m.unit / 3, uint64(r.t) * m.unit
}

type decision struct{ h, t, n int }

func decide(e *vt.Episode, name string, lim int, ds []decision) {
	r := vt.Rand(name)
	m := &memory{unit: []uint64{1, 10, 1024, 4096, 1000003, 1 << 30, 1 << 36}[r.Intn(7)]}
	if r.Intn(3) == 0 {
		m.unit = uint64(1 + r.Int63n(1<<33))
	}
	g := &gauge{}
	shown := r.Intn(3) > 0
	e.Cfg = R{"lim": lim, "shown": shown}
	c := store.NewPruneConsultant(1+r.Intn(5), float64(lim)/10, m)
	if shown {
		c.SetMemoryReporter(g)
	}
	for i, d := range ds {
		// what a second look in the same decision would see
		m.given, m.plan = nil, []reading{{d.h, d.t}}
		if i+1 < len(ds) {
			m.plan = append(m.plan, reading{ds[i+1].h, ds[i+1].t})
		}
		q := c.GetQuantityToPrune(int64(d.n))
		reads := []R{}
		for _, x := range m.given {
			reads = append(reads, R{"h": x.h, "t": x.t})
		}
		sh := []int64{}
		for _, v := range g.take() {
			sh = append(sh, bound(math.Floor(v*1000)))
		}
		e.Log(R{"op": "decide", "reads": reads, "q": bound(float64(q)), "n": d.n, "shown": sh})
	}
}

// bound keeps a number within TLC's.
func bound(f float64) int64 {
	switch {
	case f != f:
		return -2000000001
	case f > 2e9:
		return 2000000002
	case f < -2e9:
		return -2000000002
	}
	return int64(f)
}

type registry struct {
	mu sync.Mutex
	m  map[string]*gauge
}

func (r *registry) NewGauge(n string, _ ...metrics.MetricOption) metrics.Gauge {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.m[n] == nil {
		r.m[n] = &gauge{}
	}
	return r.m[n]
}
func (r *registry) NewCounter(n string, o ...metrics.MetricOption) metrics.Counter {
	return r.NewGauge(n)
}

func meminfo() uint64 {
	f, err := os.Open("/proc/meminfo")
	if err != nil {
		vt.Fatal("%s", err)
	}
	defer f.Close()
	for s := bufio.NewScanner(f); s.Scan(); {
		if fs := strings.Fields(s.Text()); len(fs) > 1 && fs[0] == "MemTotal:" {
			n, _ := strconv.ParseUint(fs[1], 10, 64)
			return n * 1024
		}
	}
	vt.Fatal("no MemTotal")
	return 0
}

var keep [][]byte

func inuse() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapInuse / 1024)
}

// analyze watches the analyzer while the heap grows; it runs alone, without collections.
func analyze(e *vt.Episode) {
	runtime.GC()
	debug.FreeOSMemory()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	reg := &registry{m: map[string]*gauge{}}
	a := cache.NewMemoryAnalyzer(reg)
	for i := 0; i < 8; i++ {
		if i > 0 {
			keep = append(keep, make([]byte, 1<<uint(16+i)))
		}
		lo := inuse()
		h, av, to := a.Memory()
		hi := inuse()
		last := func(n string) string {
			vs := reg.m[n].take()
			if len(vs) == 0 {
				return "none"
			}
			return fmt.Sprintf("%.0f", vs[len(vs)-1])
		}
		e.Log(R{"op": "memory", "heap": fmt.Sprint(h), "avail": fmt.Sprint(av), "total": fmt.Sprint(to),
			"gheap": last("log_cache_heap_in_use_memory"), "gavail": last("log_cache_available_system_memory"), "gtotal": last("log_cache_total_system_memory"),
			"machine": fmt.Sprint(meminfo()), "lo": lo, "hi": hi, "heapkb": bound(float64(h / 1024)), "availmb": bound(float64(av >> 20)), "totalmb": bound(float64(to >> 20))})
	}
	keep = nil
}

func main() {
	vt.Open()
	vt.RunAll([]vt.Task{{Name: "analyzer", Run: analyze}}, 1)
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		n, s := fmt.Sprintf("scn-%d", i), s
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			var ds []decision
			for _, o := range s {
				ds = append(ds, decision{vt.I(o, "h"), vt.I(o, "t"), vt.I(o, "n")})
			}
			decide(e, n, vt.I(s[0], "lim"), ds)
		}})
	}
	for i := int64(0); i < vt.N; i++ {
		n := fmt.Sprintf("rnd-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			r := vt.Rand(n)
			lim := []int{0, 1, 500, 700, 333, 999, 1000, r.Intn(1001), r.Intn(1001)}[r.Intn(9)]
			var ds []decision
			for k := 1 + r.Intn(6); k > 0; k-- {
				t := 1 + r.Intn([]int{3, 20, 200, 2000}[r.Intn(4)])
				h := r.Intn(t + 1)
				if r.Intn(3) == 0 { // about the limit
					if h = t*lim/1000 + r.Intn(3) - 1; h < 0 || h > t {
						h = t
					}
				}
				max := 2000000000 / (1000*h + lim*t + 1)
				n := r.Intn(max + 1)
				if r.Intn(3) == 0 {
					n = []int{0, 1, 2, 3, 7, max}[r.Intn(6)]
				}
				if n > max {
					n = max
				}
				ds = append(ds, decision{h, t, n})
			}
			decide(e, n, lim, ds)
		}})
	}
	vt.RunAll(ts, 8)
	vt.Close()
}
