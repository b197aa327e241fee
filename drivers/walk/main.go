// Driver for pkg/client Walk and Window, and for the walking data reader built on Walk.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/url"
	"sort"
	"strconv"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql/data_reader"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

type R = vt.R

const newZone = 1000

type ctxKey struct{}

// wd is one walk.
type wd struct {
	e       *vt.Episode
	ctx     context.Context
	cancel  context.CancelFunc
	base    int64
	newBase int64
	next    int
	script  []R
	pos     int
	start   int
	end     int
	limit   int
	types   []string
	name    string
	reply   func(n int) (ts []int, err bool, cancel bool)
	reads   int
}

func (w *wd) ns(t int) int64 {
	if t >= newZone {
		return w.newBase + int64(t-newZone)
	}
	return w.base + int64(t)
}

func (w *wd) back(ns int64) int {
	if d := ns - w.newBase; d >= -1000 && d < 100000 {
		return int(d) + newZone
	}
	if d := ns - w.base; d >= -100000 && d < 100000000 {
		return int(d)
	}
	return -77
}

func (w *wd) take(op string) R {
	for w.pos < len(w.script) {
		r := w.script[w.pos]
		w.pos++
		if vt.S(r, "op") == op {
			return r
		}
	}
	return nil
}

func (w *wd) read(ctx context.Context, src string, start time.Time, opts ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
	w.reads++
	u := &url.URL{}
	q := u.Query()
	for _, o := range opts {
		o(u, q)
	}
	r := R{"op": "read", "src": src, "start": w.back(start.UnixNano()), "end": -1, "limit": -1, "types": []string{}, "name": "",
		"ctx": ctx.Value(ctxKey{}) == "here", "cancelled": false, "err": false}
	other := u.String() != ""
	for k, v := range q {
		switch k {
		case "end_time":
			n, _ := strconv.ParseInt(v[0], 10, 64)
			r["end"] = w.back(n)
		case "limit":
			r["limit"], _ = strconv.Atoi(v[0])
		case "envelope_types":
			r["types"] = v
		case "name_filter":
			r["name"] = v[0]
		default:
			other = true
		}
		other = other || (k != "envelope_types" && len(v) != 1)
	}
	r["other"] = other
	ts, fail, cancel := w.reply(r["start"].(int))
	if fail {
		r["err"] = true
		r["es"] = []R{}
		if cancel {
			w.cancel()
		}
		r["cancelled"] = w.ctx.Err() != nil
		w.e.Log(r)
		return nil, errors.New("no")
	}
	es, log := []*loggregator_v2.Envelope{}, []R{}
	for _, t := range ts {
		w.next++
		es = append(es, &loggregator_v2.Envelope{Timestamp: w.ns(t), InstanceId: strconv.Itoa(w.next)})
		log = append(log, R{"t": t, "id": w.next})
	}
	r["es"] = log
	w.e.Log(r)
	return es, nil
}

func ids(es []*loggregator_v2.Envelope) []int {
	res := []int{}
	for _, e := range es {
		n, _ := strconv.Atoi(e.GetInstanceId())
		res = append(res, n)
	}
	return res
}

// recBack records a backoff; a nil inner one follows the script.
type recBack struct {
	w     *wd
	inner client.Backoff
	ret   func() bool
}

func (b *recBack) OnErr(err error) bool {
	var r bool
	if b.inner != nil {
		r = b.inner.OnErr(err)
	} else {
		r = b.ret()
	}
	b.w.e.Log(R{"op": "onerr", "ret": r})
	return r
}

func (b *recBack) OnEmpty() bool {
	var r bool
	if b.inner != nil {
		r = b.inner.OnEmpty()
	} else {
		r = b.ret()
	}
	b.w.e.Log(R{"op": "onempty", "ret": r})
	return r
}

func (b *recBack) Reset() {
	if b.inner != nil {
		b.inner.Reset()
	}
	b.w.e.Log(R{"op": "reset"})
}

func newW(e *vt.Episode, base int64) *wd {
	w := &wd{e: e, base: base, end: -1, limit: -1, types: []string{}}
	w.ctx, w.cancel = context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "here"))
	return w
}

// run performs the walk. bk is done, always, retry, onerr or free.
func (w *wd) run(bk string, max int, mute bool, delay time.Duration, visit func(n int) bool, ret func() bool) {
	defer w.cancel()
	e := w.e
	src := "src-" + e.Ep
	e.Cfg = R{"start": w.start, "end": w.end, "bk": bk, "max": max, "src": src, "limit": w.limit, "types": w.types, "name": w.name, "mute": mute}
	var opts []client.WalkOption
	if w.start != 0 || w.base != 0 {
		opts = append(opts, client.WithWalkStartTime(time.Unix(0, w.ns(w.start))))
	}
	if delay >= 0 {
		opts = append(opts, client.WithWalkDelay(delay))
	}
	if w.end >= 0 {
		opts = append(opts, client.WithWalkEndTime(time.Unix(0, w.ns(w.end))))
	}
	if w.limit >= 0 {
		opts = append(opts, client.WithWalkLimit(w.limit))
	}
	if len(w.types) > 0 {
		var ts []logcache_v1.EnvelopeType
		for _, t := range w.types {
			ts = append(ts, logcache_v1.EnvelopeType(logcache_v1.EnvelopeType_value[t]))
		}
		opts = append(opts, client.WithWalkEnvelopeTypes(ts...))
	}
	if w.name != "" {
		opts = append(opts, client.WithWalkNameFilter(w.name))
	}
	var inner client.Backoff
	switch bk {
	case "done":
		inner = client.AlwaysDoneBackoff{}
	case "always":
		inner = client.NewAlwaysRetryBackoff(time.Microsecond)
	case "retry":
		inner = client.NewRetryBackoff(time.Microsecond, max)
	case "onerr":
		inner = client.NewRetryBackoffOnErr(time.Microsecond, max)
	}
	if !mute {
		opts = append(opts, client.WithWalkBackoff(&recBack{w: w, inner: inner, ret: ret}))
	}
	ok, crash := vt.Within(20*time.Second, func() {
		client.Walk(w.ctx, src, func(es []*loggregator_v2.Envelope) bool {
			r := visit(len(es))
			e.Log(R{"op": "visit", "ids": ids(es), "ret": r})
			return r
		}, w.read, opts...)
	})
	switch {
	case crash != "":
		e.Log(R{"op": "crash", "what": crash})
	case ok:
		e.Log(R{"op": "done"})
	default:
		e.Log(R{"op": "walk never returned"})
	}
}

func scnWalk(scn []R, base int64) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		w := newW(e, base)
		w.newBase = time.Now().Add(-30 * time.Minute).UnixNano()
		w.script = scn
		w.start = 1
		if c := w.take("cfg"); c != nil {
			w.end = vt.I(c, "end")
		}
		w.reply = func(int) ([]int, bool, bool) {
			r := w.take("read")
			if r == nil {
				return nil, true, true
			}
			ts := []int{}
			for _, t := range r["ts"].([]interface{}) {
				ts = append(ts, int(t.(float64)))
			}
			return ts, vt.B(r, "err"), vt.B(r, "cancel")
		}
		w.run("free", 0, false, time.Hour, func(int) bool {
			r := w.take("visit")
			return r != nil && vt.B(r, "ret")
		}, func() bool {
			r := w.take("back")
			return r != nil && vt.B(r, "ret")
		})
	}
}

var typeNames = []string{"LOG", "COUNTER", "GAUGE", "TIMER", "EVENT", "ANY"}

// randWalk walks a random growing store through a reader that keeps timestamps whole.
func randWalk(name string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		base := []int64{0, 1000000000000000000, 1500000000123456789}[r.Intn(3)]
		w := newW(e, base)
		w.newBase = time.Now().Add(-30 * time.Minute).UnixNano()
		var db []int
		span := 3 + r.Intn(30)
		for i := 0; i < r.Intn(60); i++ {
			db = append(db, r.Intn(span))
		}
		for i := 0; i < r.Intn(4); i++ {
			db = append(db, newZone+r.Intn(5))
		}
		if r.Intn(3) > 0 {
			w.start = r.Intn(span)
		}
		if r.Intn(2) == 0 {
			w.end = r.Intn(span + 3)
			if r.Intn(2) == 0 {
				w.end = newZone + r.Intn(8)
			}
		}
		if r.Intn(2) == 0 {
			w.limit = r.Intn(6)
		}
		if r.Intn(3) == 0 {
			for _, i := range r.Perm(6)[:1+r.Intn(3)] {
				w.types = append(w.types, typeNames[i])
			}
		}
		if r.Intn(3) == 0 {
			w.name = []string{"^cpu$", "a b&c", ".*", "ü"}[r.Intn(4)]
		}
		perr := r.Intn(4)
		cancelAt := -1
		if r.Intn(5) == 0 {
			cancelAt = r.Intn(6)
		}
		honest := r.Intn(4) > 0
		w.reply = func(start int) ([]int, bool, bool) {
			if w.reads > 40 || w.ctx.Err() != nil {
				return nil, true, true
			}
			if w.reads-1 == cancelAt {
				return nil, true, true
			}
			if perr > 0 && r.Intn(10) < perr {
				return nil, true, false
			}
			// something arrives now and then
			if r.Intn(4) == 0 {
				db = append(db, r.Intn(span+4))
			}
			if r.Intn(6) == 0 {
				db = append(db, newZone+r.Intn(8))
			}
			if r.Intn(5) == 0 {
				return nil, false, false
			}
			sort.Ints(db)
			var in []int
			for _, t := range db {
				if t >= start && (w.end < 0 || !honest || t < w.end) {
					in = append(in, t)
				}
			}
			lim := w.limit
			if lim <= 0 {
				lim = 100
			}
			if len(in) > lim {
				k := lim
				for k < len(in) && in[k] == in[k-1] {
					k++
				}
				in = in[:k]
			}
			return in, false, false
		}
		bk := []string{"done", "always", "retry", "onerr", "free"}[r.Intn(5)]
		mute := bk == "done" && r.Intn(2) == 0
		stop := 1 + r.Intn(12)
		n := 0
		w.run(bk, r.Intn(5), mute, time.Hour, func(int) bool {
			n++
			return n < stop || r.Intn(3) > 0
		}, func() bool { return r.Intn(3) > 0 })
	}
}

// defaultDelay walks without a delay option: an envelope of now is too new, one of 30 s ago is not.
func defaultDelay(e *vt.Episode) {
	w := newW(e, 0)
	w.base = time.Now().Add(-30 * time.Second).UnixNano()
	w.newBase = time.Now().Add(100 * time.Millisecond).UnixNano()
	w.start = 1
	k := 0
	w.reply = func(int) ([]int, bool, bool) {
		k++
		switch k {
		case 1:
			w.newBase = time.Now().Add(-50 * time.Millisecond).UnixNano()
			return []int{3, 4, newZone, newZone + 1}, false, false
		case 2:
			w.newBase = time.Now().Add(-50 * time.Millisecond).UnixNano()
			return []int{newZone}, false, false
		}
		return nil, true, true
	}
	w.run("free", 0, false, -1, func(int) bool { return true }, func() bool { return true })
}

// ---------------------------------------------------------------- window

func window(e *vt.Episode, r *rand.Rand, script []R, interval, width time.Duration, dflt, build bool) {
	ctx := context.WithValue(context.Background(), ctxKey{}, "here")
	base := time.Date(2015, 1, 2, 3, 4, 5, 678, time.UTC)
	e.Cfg = R{"interval": int(interval / time.Microsecond), "width": int(width / time.Millisecond)}
	opts := []client.WindowOption{client.WithWindowInterval(interval), client.WithWindowWidth(width)}
	t0 := time.Now()
	if !dflt {
		opts = append(opts, client.WithWindowStartTime(base))
	}
	var first time.Time
	n := 0
	at := 0
	pick := func() (int, bool) {
		if script != nil {
			if at >= len(script) {
				return 0, false
			}
			return vt.I(script[at], "n"), vt.B(script[at], "ret")
		}
		return r.Intn(5), at < 6
	}
	var wk client.Walker = func(c context.Context, start, end time.Time) []*loggregator_v2.Envelope {
		now := time.Now()
		ok := true
		if first.IsZero() {
			first = start
			if dflt {
				ok = !start.Before(t0.Add(-width)) && !start.After(now.Add(-width))
			} else {
				ok = start.Equal(base)
			}
		}
		dl, has := c.Deadline()
		deadline := has && dl.After(now.Add(-time.Minute)) && !dl.After(now.Add(interval))
		k, _ := pick()
		var es []*loggregator_v2.Envelope
		for i := 0; i < k; i++ {
			n++
			es = append(es, &loggregator_v2.Envelope{InstanceId: strconv.Itoa(n)})
		}
		off := start.Sub(first)
		o := int(off / time.Microsecond)
		if off%time.Microsecond != 0 {
			o = -5
		}
		s := end.Sub(start)
		sp := int(s / time.Millisecond)
		if s%time.Millisecond != 0 {
			sp = -5
		}
		e.Log(R{"op": "walk", "off": o, "span": sp, "es": ids(es), "first": ok, "deadline": deadline, "ctx": c.Value(ctxKey{}) == "here"})
		return es
	}
	ok, crash := vt.Within(20*time.Second, func() {
		client.Window(ctx, func(es []*loggregator_v2.Envelope) bool {
			_, ret := pick()
			at++
			e.Log(R{"op": "visit", "es": ids(es), "ret": ret})
			return ret
		}, wk, opts...)
	})
	switch {
	case crash != "":
		e.Log(R{"op": "crash", "what": crash})
	case ok:
		e.Log(R{"op": "done"})
	default:
		e.Log(R{"op": "window never returned"})
	}
}

// ---------------------------------------------------------------- data reader and BuildWalker

// world is a store behind a reader that fails as told.
type world struct {
	mu    sync.Mutex
	db    []int
	base  int64
	fails []bool
	n     int
	seen  []R
}

func (w *world) read(ctx context.Context, src string, start time.Time, opts ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	q := url.Values{}
	for _, o := range opts {
		o(&url.URL{}, q)
	}
	k := w.n
	w.n++
	fail := k < len(w.fails) && w.fails[k]
	if fail {
		return nil, fmt.Errorf("read %d fails", k)
	}
	lim := 100
	if v := q.Get("limit"); v != "" {
		lim, _ = strconv.Atoi(v)
		if lim <= 0 {
			lim = 100
		}
	}
	end := int64(1) << 62
	if v := q.Get("end_time"); v != "" {
		end, _ = strconv.ParseInt(v, 10, 64)
	}
	ty := q["envelope_types"]
	var es []*loggregator_v2.Envelope
	for i, t := range w.db {
		ns := w.base + int64(t)
		if ns < start.UnixNano() || ns >= end || src != "app" {
			continue
		}
		if len(ty) > 0 && !contains(ty, typeOf(i)) {
			continue
		}
		if len(es) >= lim && es[len(es)-1].Timestamp != ns {
			break
		}
		es = append(es, &loggregator_v2.Envelope{Timestamp: ns, SourceId: src, InstanceId: strconv.Itoa(i + 1)})
	}
	return es, nil
}

func typeOf(i int) string { return typeNames[i%3] }

func contains(s []string, x string) bool {
	for _, y := range s {
		if y == x || y == "ANY" {
			return true
		}
	}
	return false
}

func readerEpisode(name string, maxRun int) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		w := &world{base: 1500000000000000000, fails: []bool{}}
		span := 2 + r.Intn(30)
		for i := 0; i < r.Intn(80); i++ {
			w.db = append(w.db, r.Intn(span))
		}
		sort.Ints(w.db)
		// runs of failures; the reader of the data gives a run of five up
		longest := 0
		for i := 0; i < 1+r.Intn(3); i++ {
			for j := 0; j < r.Intn(3); j++ {
				w.fails = append(w.fails, false)
			}
			k := r.Intn(maxRun + 1)
			if k > longest {
				longest = k
			}
			for j := 0; j < k; j++ {
				w.fails = append(w.fails, true)
			}
		}
		st, en := r.Intn(span), r.Intn(span+4)
		if en < st {
			st, en = en, st
		}
		lim := []int64{0, 1, 2, 5, 100}[r.Intn(5)]
		var tys []logcache_v1.EnvelopeType
		logTy := []string{}
		if r.Intn(2) == 0 {
			for _, i := range r.Perm(3)[:1+r.Intn(2)] {
				tys = append(tys, logcache_v1.EnvelopeType(logcache_v1.EnvelopeType_value[typeNames[i]]))
				logTy = append(logTy, typeNames[i])
			}
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		expired := r.Intn(12) == 0
		if expired {
			cancel()
		}
		rd := data_reader.NewWalkingDataReader(w.read)
		db := []R{}
		for i, t := range w.db {
			db = append(db, R{"t": t, "id": i + 1, "ty": typeOf(i)})
		}
		e.Cfg = R{"db": db, "fails": w.fails, "expired": expired}
		resp, err := rd.Read(ctx, &logcache_v1.ReadRequest{SourceId: "app", StartTime: w.base + int64(st), EndTime: w.base + int64(en), Limit: lim, EnvelopeTypes: tys})
		res := []int{}
		if resp != nil {
			res = ids(resp.GetEnvelopes().GetBatch())
		}
		e.Log(R{"op": "result", "st": st, "en": en, "types": logTy, "err": err != nil, "res": res})
	}
}

// walkerEpisode does the same through BuildWalker, which gives up at the first failure and cannot say so.
func walkerEpisode(name string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		w := &world{base: 1500000000000000000, fails: []bool{}}
		span := 2 + r.Intn(40)
		for i := 0; i < r.Intn(300); i++ {
			w.db = append(w.db, r.Intn(span))
		}
		sort.Ints(w.db)
		st, en := r.Intn(span), r.Intn(span+4)
		if en < st {
			st, en = en, st
		}
		db := []R{}
		for i, t := range w.db {
			db = append(db, R{"t": t, "id": i + 1, "ty": typeOf(i)})
		}
		e.Cfg = R{"db": db, "fails": []bool{}, "expired": false}
		es := client.BuildWalker("app", w.read)(context.Background(), time.Unix(0, w.base+int64(st)), time.Unix(0, w.base+int64(en)))
		e.Log(R{"op": "result", "st": st, "en": en, "types": []string{}, "err": false, "res": ids(es)})
	}
}

func main() {
	vt.Open()
	var ts []vt.Task
	switch vt.Mode {
	case "walk":
		for i, s := range vt.Scenarios() {
			ts = append(ts, vt.Task{Name: fmt.Sprintf("scn-%d", i), Run: scnWalk(s, []int64{0, 1500000000123456789}[i%2])})
		}
		for i := int64(0); i < vt.N; i++ {
			n := fmt.Sprintf("walk-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: randWalk(n)})
		}
		ts = append(ts, vt.Task{Name: "default-delay", Run: defaultDelay})
		vt.RunAll(ts, 64)
	case "window":
		for i, s := range vt.Scenarios() {
			s, i := s, i
			ts = append(ts, vt.Task{Name: fmt.Sprintf("scn-%d", i), Run: func(e *vt.Episode) {
				window(e, nil, s, time.Duration(1+i%3)*time.Millisecond, time.Duration(i%7)*time.Minute, i%3 == 0, false)
			}})
		}
		for i := int64(0); i < vt.N; i++ {
			n := fmt.Sprintf("window-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
				r := vt.Rand(n)
				window(e, r, nil, time.Duration(500+r.Intn(5000))*time.Microsecond, time.Duration(r.Intn(10000000))*time.Millisecond, r.Intn(2) == 0, false)
			}})
		}
		vt.RunAll(ts, 64)
	case "reader":
		for i := int64(0); i < vt.N; i++ {
			n := fmt.Sprintf("reader-%d", i)
			m := []int{0, 1, 2, 5, 6}[i%5]
			ts = append(ts, vt.Task{Name: n, Run: readerEpisode(n, m)})
		}
		vt.RunAll(ts, 2000)
	case "buildwalker":
		for i := int64(0); i < vt.N; i++ {
			n := fmt.Sprintf("walker-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: walkerEpisode(n)})
		}
		vt.RunAll(ts, 8)
	}
	vt.Close()
}
