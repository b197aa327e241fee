// Driver for the nozzle: a fake stream before it, a fake cache behind it.
package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator"
	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/nozzle"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type R = vt.R

type counter struct{ n int64 }

func (c *counter) Add(d float64) { atomic.AddInt64(&c.n, int64(d)) }
func (c *counter) Set(float64)   {}

type registry struct {
	mu sync.Mutex
	m  map[string]*counter
}

func (r *registry) get(n string) *counter {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.m[n] == nil {
		r.m[n] = &counter{}
	}
	return r.m[n]
}
func (r *registry) NewCounter(n string, o ...metrics.MetricOption) metrics.Counter { return r.get(n) }
func (r *registry) NewGauge(n string, o ...metrics.MetricOption) metrics.Gauge     { return r.get(n) }
func (r *registry) val(n string) int64                                             { return atomic.LoadInt64(&r.get(n).n) }

type stream struct {
	e     *vt.Episode
	asked chan struct{}
	ch    chan []*loggregator_v2.Envelope
}

func kindOf(s *loggregator_v2.Selector) (string, bool) {
	plain := s.GetSourceId() == ""
	switch m := s.GetMessage().(type) {
	case *loggregator_v2.Selector_Log:
		return "log", plain && m.Log != nil
	case *loggregator_v2.Selector_Gauge:
		return "gauge", plain && m.Gauge != nil && len(m.Gauge.Names) == 0
	case *loggregator_v2.Selector_Counter:
		return "counter", plain && m.Counter != nil && m.Counter.Name == ""
	case *loggregator_v2.Selector_Timer:
		return "timer", plain && m.Timer != nil
	case *loggregator_v2.Selector_Event:
		return "event", plain && m.Event != nil
	}
	return "?", false
}

func (s *stream) Stream(ctx context.Context, req *loggregator_v2.EgressBatchRequest) loggregator.EnvelopeStream {
	kinds, plain := []string{}, req.GetLegacySelector() == nil && req.GetDeterministicName() == ""
	for _, x := range req.GetSelectors() {
		k, p := kindOf(x)
		kinds = append(kinds, k)
		plain = plain && p
	}
	s.e.Log(R{"op": "ask", "shard": req.GetShardId(), "preferred": req.GetUsePreferredTags(), "kinds": kinds, "plain": plain})
	close(s.asked)
	return func() []*loggregator_v2.Envelope { return <-s.ch }
}

type cache struct {
	e       *vt.Episode
	mu      sync.Mutex
	r       *rand.Rand
	n       int
	got     int64
	orig    map[int64]*loggregator_v2.Envelope
	at      map[int64]time.Time
	failPct int
	naps    bool
	gate    chan struct{}
	late    int32
}

func (c *cache) Send(ctx context.Context, in *rpc.SendRequest) (*rpc.SendResponse, error) {
	now := time.Now()
	c.mu.Lock()
	c.n++
	i := c.n
	runs, same := []R{}, true
	for _, x := range in.GetEnvelopes().GetBatch() {
		k := x.GetTimestamp()
		if c.orig != nil {
			same = same && proto.Equal(x, c.orig[k])
			if w := now.Sub(c.at[k]); w > 3*time.Second {
				c.e.Log(R{"op": "slow", "ms": int64(w / time.Millisecond)})
			}
		}
		if l := len(runs); l > 0 && runs[l-1]["hi"].(int64)+1 == k {
			runs[l-1]["hi"] = k
		} else {
			runs = append(runs, R{"lo": k, "hi": k})
		}
	}
	fail := c.r.Intn(100) < c.failPct
	nap := c.naps && c.r.Intn(3) == 0
	c.e.Log(R{"op": "send", "i": i, "runs": runs, "marked": in.LocalOnly, "same": same})
	c.mu.Unlock()
	<-c.gate
	if time.Since(now) > 2*time.Second {
		// on its way to the client's deadline: which side of it this send falls is not known
		atomic.StoreInt32(&c.late, 1)
	}
	if nap {
		time.Sleep(20 * time.Millisecond)
	}
	atomic.AddInt64(&c.got, int64(len(in.GetEnvelopes().GetBatch())))
	c.e.Log(R{"op": "sent", "i": i, "ok": !fail})
	if fail {
		return nil, status.Error([]codes.Code{codes.Unavailable, codes.Internal, codes.Canceled}[i%3], "no")
	}
	return &rpc.SendResponse{}, nil
}

var kinds = []string{"log", "gauge", "counter", "timer", "event"}

func envelope(r *rand.Rand, k int64) *loggregator_v2.Envelope {
	e := &loggregator_v2.Envelope{SourceId: fmt.Sprintf("s%d", r.Intn(4)), Timestamp: k}
	switch r.Intn(3) {
	case 0:
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(fmt.Sprint(r.Int()))}}
	case 1:
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: "t", Start: r.Int63(), Stop: 5}}
		e.Tags = map[string]string{"a": "b"}
	}
	return e
}

func episode(e *vt.Episode, name string, i int64, flood bool) {
	r := vt.Rand(name)
	c := &cache{e: e, r: vt.Rand(name + "cache"), orig: map[int64]*loggregator_v2.Envelope{}, at: map[int64]time.Time{}, gate: make(chan struct{}), naps: r.Intn(2) == 0}
	if i%2 == 1 {
		c.failPct = 30
	}
	if !flood {
		close(c.gate)
	} else {
		c.orig = nil
	}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vt.Fatal("%s", err)
	}
	srv := grpc.NewServer(grpc.MaxRecvMsgSize(1 << 26))
	rpc.RegisterIngressServer(srv, c)
	go srv.Serve(lis)
	var ks []string
	for _, k := range r.Perm(5)[:r.Intn(6)] {
		ks = append(ks, kinds[k])
	}
	reg := &registry{m: map[string]*counter{}}
	s := &stream{e: e, asked: make(chan struct{}), ch: make(chan []*loggregator_v2.Envelope)}
	opts := []nozzle.NozzleOption{nozzle.WithDialOpts(grpc.WithInsecure())}
	if len(ks) > 0 || r.Intn(2) == 0 {
		opts = append(opts, nozzle.WithSelectors(ks...))
	}
	shard := fmt.Sprintf("shard-%d", r.Intn(100))
	e.Cfg = R{"shard": shard, "kinds": append([]string{}, ks...), "max": 512, "lossy": flood}
	go nozzle.NewNozzle(s, lis.Addr().String(), shard, reg, log.New(ioutil.Discard, "", 0), opts...).Start()
	<-s.asked
	k := int64(0)
	pool := []*loggregator_v2.Envelope{}
	put := func(n int) {
		var b []*loggregator_v2.Envelope
		c.mu.Lock()
		for ; n > 0; n-- {
			k++
			var x *loggregator_v2.Envelope
			if flood {
				x = pool[k]
			} else {
				x = envelope(r, k)
			}
			b = append(b, x)
			if c.orig != nil {
				c.orig[k] = proto.Clone(x).(*loggregator_v2.Envelope)
				c.at[k] = time.Now()
			}
		}
		c.mu.Unlock()
		e.Log(R{"op": "arrive", "n": len(b)})
		s.ch <- b
	}
	if flood {
		for j := int64(0); j < 360010; j++ {
			pool = append(pool, &loggregator_v2.Envelope{Timestamp: j})
		}
		for j := 0; j < 60; j++ {
			put(6000)
			if j%9 == 8 {
				time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
			}
		}
		put(3)
		time.Sleep(700 * time.Millisecond)
		close(c.gate)
		put(3)
	} else if vt.Mode == "trickle" {
		// fewer than fill a batch between two flushes by the clock, and always more to come
		for j := 0; j < 900; j++ {
			put(2)
			time.Sleep(2 * time.Millisecond)
		}
	} else {
		for j := 1 + r.Intn(6); j > 0; j-- {
			put([]int{0, 1, 2, 100, 511, 512, 513, 1024, 2000}[r.Intn(9)])
			time.Sleep(time.Duration([]int{0, 0, 1, 100, 490, 510}[r.Intn(6)]) * time.Millisecond)
		}
	}
	quiet := func() bool {
		c.mu.Lock()
		n := int64(c.n)
		c.mu.Unlock()
		if reg.val("nozzle_ingress") != k {
			return false
		}
		if flood {
			return n > 0
		}
		return atomic.LoadInt64(&c.got) >= k
	}
	vt.Eventually(10*time.Second, quiet)
	time.Sleep(700 * time.Millisecond)
	if flood {
		last := int64(-1)
		vt.Eventually(20*time.Second, func() bool {
			time.Sleep(700 * time.Millisecond)
			g := atomic.LoadInt64(&c.got)
			same := g == last
			last = g
			return same
		})
	}
	if atomic.LoadInt32(&c.late) == 1 {
		e.Log(R{"op": "late"})
		return
	}
	e.Log(R{"op": "quiet", "ingress": reg.val("nozzle_ingress"), "egress": reg.val("nozzle_egress"), "err": reg.val("nozzle_err")})
}

func main() {
	vt.Open()
	var ts []vt.Task
	for i := int64(0); i < vt.N; i++ {
		n, i := fmt.Sprintf("rnd-%d", i), i
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) { episode(e, n, i, false) }})
	}
	if vt.Mode == "flood" {
		ts = nil
		for i := int64(0); i < vt.N; i++ {
			n, i := fmt.Sprintf("flood-%d", i), i
			ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) { episode(e, n, i, true) }})
		}
		vt.RunAll(ts, 4)
	} else {
		par := 24
		if vt.Mode == "trickle" {
			par = 4
		}
		vt.RunAll(ts, par)
	}
	vt.Close()
}
