// Driver for internal/cache/store: runs put/prune/get/meta sequences and records what the store answers.
package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache/store"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtm"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
)

type R = vt.R

// pruner is the memory consultant: it asks for a prune when told to, once.
type pruner struct {
	mu       sync.Mutex
	armed    bool
	inflight bool
	want     int
	arg      int64
	done     chan struct{}
}

func (p *pruner) SetMemoryReporter(metrics.Gauge) {}

func (p *pruner) GetQuantityToPrune(n int64) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.armed {
		p.armed, p.inflight, p.arg = false, true, n
		return p.want
	}
	p.finish()
	return 0
}

func (p *pruner) finish() {
	if p.inflight {
		p.inflight = false
		close(p.done)
	}
}

func (p *pruner) arm(n int) chan struct{} {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.armed, p.want, p.done = true, n, make(chan struct{})
	return p.done
}

// h is one store with its model-side bookkeeping.
type h struct {
	e    *vt.Episode
	s    *store.Store
	p    *pruner
	m    *vtm.Registry
	base int64
	unit int64
	next int
	envs map[int]*loggregator_v2.Envelope
	srcs []string
	mute bool // do not log puts
	full bool // log sizes and counts too
}

func newH(e *vt.Episode, max int, unit int64) *h {
	x := &h{e: e, p: &pruner{}, m: vtm.New(), unit: unit, envs: map[int]*loggregator_v2.Envelope{}}
	x.base = time.Now().Add(-5000 * time.Hour).Truncate(time.Hour).UnixNano()
	x.m.Get("log_cache_truncation_duration").SetHook(func(string, float64) {
		x.p.mu.Lock()
		x.p.finish()
		x.p.mu.Unlock()
	})
	x.s = store.NewStore(max, x.p, x.m)
	e.Cfg = R{"max": max, "unit": fmt.Sprint(unit)}
	return x
}

// ns maps a model time to nanoseconds, keeping the order: 2k+1 is one nanosecond after 2k.
func (x *h) ns(t int) int64 {
	if x.unit <= 1 {
		return x.base + int64(t)
	}
	return x.base + int64(t/2)*x.unit + int64(t%2)
}

func (x *h) back(ns int64) int {
	d := ns - x.base
	if x.unit <= 1 {
		if d < -1000000 || d > 1000000 {
			return -1000
		}
		return int(d)
	}
	k, r := d/x.unit, d%x.unit
	if r > 1 || r < 0 || k > 100000 {
		return -1000
	}
	return int(k)*2 + int(r)
}

var names = []string{"a", "b", "ab", "c"}

// filters are the name filters used; what each matches among names is computed with regexp.
var filters = []string{"^a$", "a", "b", "^ab?$", ".*", "^$", "zz", "^[bc]$"}

func (x *h) put(src, ty string, t int, nm []string) {
	x.next++
	id := x.next
	e := &loggregator_v2.Envelope{
		Timestamp:  x.ns(t),
		SourceId:   "env-" + src,
		InstanceId: strconv.Itoa(id),
		Tags:       map[string]string{"id": strconv.Itoa(id), "src": src},
	}
	switch ty {
	case "LOG":
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte("p" + strconv.Itoa(id))}}
	case "COUNTER":
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: nm[0], Delta: uint64(id), Total: uint64(id * 2)}}
	case "GAUGE":
		ms := map[string]*loggregator_v2.GaugeValue{}
		for i, n := range nm {
			ms[n] = &loggregator_v2.GaugeValue{Unit: "u", Value: float64(id) + float64(i)/8}
		}
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: ms}}
	case "TIMER":
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: nm[0], Start: int64(id), Stop: int64(id + 1)}}
	case "EVENT":
		e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: "t" + strconv.Itoa(id), Body: "b"}}
	}
	x.envs[id] = proto.Clone(e).(*loggregator_v2.Envelope)
	found := false
	for _, s := range x.srcs {
		found = found || s == src
	}
	if !found {
		x.srcs = append(x.srcs, src)
	}
	if nm == nil {
		nm = []string{}
	}
	x.s.Put(e, src)
	if x.mute {
		return
	}
	r := R{"op": "put", "src": src, "id": id, "t": t, "ty": ty, "nm": nm}
	if x.full {
		r["size"] = int(x.m.Get("log_cache_store_size").Value())
	}
	x.e.Log(r)
}

func (x *h) prune(n int) {
	done := x.p.arm(n)
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		x.e.Log(R{"op": "prune never ran", "n": n})
		return
	}
	r := R{"op": "prune", "n": n}
	if x.full {
		r["arg"] = int(x.p.arg)
		r["expired"] = int(x.m.Get("log_cache_expired").Value())
		r["size"] = int(x.m.Get("log_cache_store_size").Value())
		if x.unit == int64(time.Hour) && n > 0 && x.p.arg > 0 {
			cp := x.m.Get("log_cache_cache_period").Value()
			if cp == 0 {
				r["old"] = -1
			} else {
				ns := time.Now().UnixNano() - int64(cp)*int64(time.Millisecond)
				d := ns - x.base
				r["old"] = int((d+int64(30*time.Minute))/int64(time.Hour)) * 2
			}
		}
	}
	x.e.Log(r)
}

var types = map[string]logcache_v1.EnvelopeType{
	"LOG": logcache_v1.EnvelopeType_LOG, "COUNTER": logcache_v1.EnvelopeType_COUNTER,
	"GAUGE": logcache_v1.EnvelopeType_GAUGE, "TIMER": logcache_v1.EnvelopeType_TIMER,
	"EVENT": logcache_v1.EnvelopeType_EVENT,
}

func (x *h) get(src string, st, en int, ty []string, filter string, lim int, desc bool) {
	var ts []logcache_v1.EnvelopeType
	logTy := []string{}
	any := false
	for _, t := range ty {
		if t == "ANY" {
			any = true
			ts = append(ts, logcache_v1.EnvelopeType_ANY)
			continue
		}
		ts = append(ts, types[t])
		logTy = append(logTy, t)
	}
	if any {
		logTy = []string{}
	}
	var re *regexp.Regexp
	match := []string{}
	if filter != "" {
		re = regexp.MustCompile(filter)
		for _, n := range names {
			if re.MatchString(n) {
				match = append(match, n)
			}
		}
	}
	res := x.s.Get(src, time.Unix(0, x.ns(st)), time.Unix(0, x.ns(en)), ts, re, lim, desc)
	out := []R{}
	for _, e := range res {
		out = append(out, x.project(e, re))
	}
	x.e.Log(R{"op": "get", "src": src, "st": st, "en": en, "ty": logTy, "flt": filter != "", "match": match, "lim": lim, "desc": desc, "res": out})
}

// project turns a returned envelope into identity, names and whether its content is what was put.
func (x *h) project(e *loggregator_v2.Envelope, re *regexp.Regexp) R {
	id, _ := strconv.Atoi(e.GetInstanceId())
	orig := x.envs[id]
	nm := []string{}
	ok := orig != nil
	if ok {
		want := proto.Clone(orig).(*loggregator_v2.Envelope)
		if g := want.GetGauge(); g != nil && e.GetGauge() != nil {
			for k := range g.Metrics {
				if _, has := e.GetGauge().Metrics[k]; !has {
					delete(g.Metrics, k)
				}
			}
		}
		ok = proto.Equal(want, e)
	}
	switch {
	case e.GetGauge() != nil:
		for k := range e.GetGauge().Metrics {
			nm = append(nm, k)
		}
		sort.Strings(nm)
	case e.GetCounter() != nil:
		nm = append(nm, e.GetCounter().Name)
	case e.GetTimer() != nil:
		nm = append(nm, e.GetTimer().Name)
	}
	return R{"id": id, "ok": ok, "nm": nm}
}

func (x *h) meta() {
	m := x.s.Meta()
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	res := []R{}
	for _, k := range keys {
		v := m[k]
		res = append(res, R{"src": k, "count": int(v.Count), "expired": int(v.Expired),
			"oldest": x.back(v.OldestTimestamp), "newest": x.back(v.NewestTimestamp)})
	}
	x.e.Log(R{"op": "meta", "res": res})
}

const big = 1 << 20

func (x *h) fullReads() {
	for _, s := range append(append([]string{}, x.srcs...), "nobody") {
		x.get(s, -10, 100000, nil, "", big, false)
	}
}

var typeNames = []string{"LOG", "COUNTER", "GAUGE", "TIMER", "EVENT", "NONE"}

func randPut(x *h, r *rand.Rand, srcs, span int, even bool, cur *int) {
	t := 0
	switch r.Intn(4) {
	case 0: // late
		t = r.Intn(span)
	case 1: // same as the last
		t = *cur
	default:
		*cur += r.Intn(3)
		if *cur >= span {
			*cur = span - 1
		}
		t = *cur
	}
	if even {
		t -= t % 2
	}
	ty := typeNames[r.Intn(len(typeNames))]
	var nm []string
	switch ty {
	case "COUNTER", "TIMER":
		nm = []string{names[r.Intn(len(names))]}
	case "GAUGE":
		p := r.Perm(len(names))
		for i := 0; i <= r.Intn(3); i++ {
			nm = append(nm, names[p[i]])
		}
	}
	x.put(string(rune('a'+r.Intn(srcs))), ty, t, nm)
}

func scnEpisode(mode string, scn []R, unit int64, max int) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		x := newH(e, max, unit)
		x.full = mode == "evict"
		for _, o := range scn {
			switch vt.S(o, "op") {
			case "put":
				x.put(vt.S(o, "src"), "LOG", vt.I(o, "t")*2, nil)
			case "prune":
				x.prune(vt.I(o, "n"))
			}
			if mode == "meta" {
				x.meta()
			}
		}
		x.observe(mode, 2*5)
	}
}

func (x *h) observe(mode string, span int) {
	switch mode {
	case "contents", "evict":
		x.fullReads()
	case "range":
		for _, s := range append(append([]string{}, x.srcs...), "nobody") {
			for st := 0; st < 8; st++ {
				for en := st; en < 8; en++ {
					x.get(s, st, en, nil, "", big, (st+en)%2 == 0)
				}
			}
		}
	case "limit":
		for _, s := range x.srcs {
			for lim := 1; lim <= 4; lim++ {
				for st := 0; st < 5; st += 2 {
					x.get(s, st, 8, nil, "", lim, false)
					x.get(s, st, 8, nil, "", lim, true)
				}
			}
		}
	case "meta":
		x.meta()
	}
}

func randEpisode(mode string, name string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(mode + name)
		unit := []int64{1, int64(time.Second), int64(time.Hour)}[r.Intn(3)]
		srcs := 1 + r.Intn(4)
		span := 4 + r.Intn(40)
		max := big
		puts := 5 + r.Intn(60)
		prunes := 0
		even := false
		switch mode {
		case "evict", "meta":
			max = 1 + r.Intn(12)
			prunes = r.Intn(4)
			if r.Intn(3) == 0 {
				max = big
			}
			if unit == int64(time.Hour) {
				even = true
			}
			if mode == "evict" && unit != int64(time.Hour) && r.Intn(2) == 0 {
				prunes = 0
			}
		case "limit":
			srcs = 1 + r.Intn(2)
			puts = 3 + r.Intn(40)
			span = 2 + r.Intn(12)
		case "contents":
			puts = 20 + r.Intn(150)
		}
		x := newH(e, max, unit)
		x.full = mode == "evict"
		cur := 0
		cuts := map[int]bool{}
		for i := 0; i < prunes; i++ {
			cuts[r.Intn(puts)] = true
		}
		for i := 0; i < puts; i++ {
			randPut(x, r, srcs, span, even, &cur)
			if cuts[i] {
				x.prune([]int{1, 2, 3, 5, 8, 20, 1000}[r.Intn(7)])
				if mode == "evict" {
					x.fullReads()
				}
			}
			switch mode {
			case "meta":
				if r.Intn(4) == 0 {
					x.meta()
				}
			case "evict":
				if r.Intn(10) == 0 {
					x.fullReads()
				}
			}
		}
		switch mode {
		case "contents":
			x.fullReads()
			x.get(x.srcs[0], -10, 100000, nil, "", big, true)
			x.fullReads()
		case "evict":
			x.fullReads()
		case "meta":
			x.meta()
		case "range", "limit":
			for i := 0; i < 30; i++ {
				st, en := r.Intn(span+2)-1, r.Intn(span+4)-1
				lim := big
				if mode == "limit" {
					lim = 1 + r.Intn(puts)
					st, en = 0, span+4
					if r.Intn(3) == 0 {
						st = r.Intn(span)
					}
				} else if r.Intn(8) == 0 {
					st, en = -10, 100000
				}
				var ty []string
				switch r.Intn(4) {
				case 0:
					for _, t := range typeNames[:5] {
						if r.Intn(2) == 0 {
							ty = append(ty, t)
						}
					}
				case 1:
					if r.Intn(2) == 0 {
						ty = []string{typeNames[r.Intn(5)], "ANY"}
					}
				}
				f := ""
				if r.Intn(3) == 0 {
					f = filters[r.Intn(len(filters))]
				}
				x.get(string(rune('a'+r.Intn(srcs))), st, en, ty, f, lim, r.Intn(2) == 0)
			}
		}
	}
}

// bigEpisode holds many envelopes with one timestamp.
func bigEpisode(mode string, n int) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		x := newH(e, big, 1)
		x.full = mode == "evict"
		x.mute = true
		for i := 0; i < n; i++ {
			x.put("a", "LOG", 4, nil)
		}
		x.mute = false
		e.Log(R{"op": "putrun", "src": "a", "id": 1, "n": n, "t": 4})
		x.put("a", "LOG", 5, nil)
		x.put("a", "LOG", 3, nil)
		if mode == "evict" {
			x.prune(10)
		}
		x.fullReads()
		if mode == "limit" {
			x.get("a", 0, 10, nil, "", 7, false)
		}
	}
}

func main() {
	vt.Open()
	mode := vt.Mode
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		u := []int64{1, int64(time.Second), int64(time.Hour)}[i%3]
		max := 2
		if mode == "contents" || mode == "range" || mode == "limit" {
			max = big
		}
		ts = append(ts, vt.Task{Name: fmt.Sprintf("scn-%s-%d", mode, i), Run: scnEpisode(mode, s, u, max)})
	}
	for i := int64(0); i < vt.N && mode != "conc" && mode != "stress"; i++ {
		n := fmt.Sprintf("rnd-%s-%d", mode, i)
		ts = append(ts, vt.Task{Name: n, Run: randEpisode(mode, n)})
	}
	if mode == "contents" || mode == "limit" || mode == "evict" {
		ts = append(ts, vt.Task{Name: "same-timestamp-" + mode, Run: bigEpisode(mode, 4100)})
	}
	switch mode {
	case "conc":
		vt.RunAll(concTasks(), 4000)
		vt.Close()
	case "stress":
		vt.RunAll(stressTasks(), 1)
		vt.Close()
	}
	vt.RunAll(ts, 4000)
	vt.Close()
}
