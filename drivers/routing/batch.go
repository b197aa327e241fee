package main

import (
	"context"
	"errors"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/routing"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
)

const slack = 1500 * time.Millisecond

type dropCounter struct {
	e *vt.Episode
	n int64
}

func (c *dropCounter) Add(d float64) {
	c.e.Log(R{"op": "drop", "n": int64(d)})
	atomic.AddInt64(&c.n, int64(d))
}
func (c *dropCounter) Set(float64) {}

// peer is the other node. It knows an envelope by producer (source) and number (timestamp).
type peer struct {
	e       *vt.Episode
	mu      sync.Mutex
	r       *rand.Rand
	n       int64
	gate    chan struct{} // closed: let sends through
	failPct int
	hang    int // this send hangs until its context ends
	sends   int
	putAt   map[int64]time.Time
	limit   time.Duration // longest wait allowed, 0: none
}

func key(p string, k int64) int64 { return int64(p[0])<<40 | k }

func (p *peer) Send(ctx context.Context, in *rpc.SendRequest, opts ...grpc.CallOption) (*rpc.SendResponse, error) {
	p.mu.Lock()
	p.sends++
	me := p.sends
	now := time.Now()
	runs := []R{}
	b := in.GetEnvelopes().GetBatch()
	same := true
	for _, x := range b {
		same = same && x != nil && len(x.SourceId) == 1 && x.InstanceId == "i" && string(x.GetLog().GetPayload()) == x.SourceId
		if !same {
			break
		}
		if p.limit > 0 {
			if w := now.Sub(p.putAt[key(x.SourceId, x.Timestamp)]); w > p.limit {
				p.e.Log(R{"op": "slow", "ms": int64(w / time.Millisecond)})
			}
		}
		if l := len(runs); l > 0 && runs[l-1]["p"] == x.SourceId && runs[l-1]["hi"].(int64)+1 == x.Timestamp {
			runs[l-1]["hi"] = x.Timestamp
			continue
		}
		runs = append(runs, R{"p": x.SourceId, "lo": x.Timestamp, "hi": x.Timestamp})
	}
	fail := p.r.Intn(100) < p.failPct
	_, dl := ctx.Deadline()
	p.e.Log(R{"op": "batch", "runs": runs, "size": len(b), "marked": in.LocalOnly, "same": same, "deadline": dl})
	p.mu.Unlock()
	atomic.AddInt64(&p.n, int64(len(b)))
	<-p.gate
	if me == p.hang {
		select {
		case <-ctx.Done():
		case <-time.After(20 * time.Second):
		}
		return nil, ctx.Err()
	}
	if fail {
		return nil, errors.New("peer is down")
	}
	return &rpc.SendResponse{}, nil
}

func batchEp(e *vt.Episode, n, kind string) {
	r := vt.Rand(n)
	size := []int{1, 2, 3, 10, 100}[r.Intn(5)]
	interval := time.Duration([]int{1, 20, 60, 150}[r.Intn(4)]) * time.Millisecond
	p := &peer{e: e, r: vt.Rand(n + "peer"), gate: make(chan struct{}), putAt: map[int64]time.Time{}}
	if r.Intn(2) == 0 {
		p.failPct = 40
	}
	if kind == "flood" && size < 10 {
		size = 10
	}
	if kind != "flood" {
		close(p.gate)
	}
	if kind == "seq" {
		p.limit = interval + slack
	}
	if kind == "hang" {
		p.hang = 1 + r.Intn(3)
	}
	e.Cfg = R{"size": size}
	dc := &dropCounter{e: e}
	b := routing.NewBatchedIngressClient(size, interval, p, dc, quiet)
	var put int64
	send := func(prod string, from, count int64) {
		in := &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{}}
		for k := from; k < from+count; k++ {
			in.Envelopes.Batch = append(in.Envelopes.Batch, &loggregator_v2.Envelope{SourceId: prod, InstanceId: "i", Timestamp: k,
				Message: &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(prod)}}})
		}
		if p.limit > 0 {
			p.mu.Lock()
			for k := from; k < from+count; k++ {
				p.putAt[key(prod, k)] = time.Now()
			}
			p.mu.Unlock()
		}
		e.Log(R{"op": "put", "p": prod, "n": count})
		atomic.AddInt64(&put, count)
		if r0 := count; r0 == 0 {
			in.Envelopes = nil
		}
		if _, err := b.Send(context.Background(), in); err != nil {
			e.Log(R{"op": "senderr"})
		}
	}
	switch kind {
	case "seq", "hang":
		k := int64(1)
		for i := 2 + r.Intn(8); i > 0; i-- {
			c := int64(r.Intn(2*size + 2))
			send("a", k, c)
			k += c
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		}
	case "many":
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			prod := string("abcd"[g])
			wg.Add(1)
			go func() {
				defer wg.Done()
				k := int64(1)
				for i := 0; i < 40; i++ {
					send(prod, k, 10)
					k += 10
				}
			}()
		}
		wg.Wait()
	case "flood":
		k := int64(1)
		c := int64(11000 + r.Intn(15000))
		for i := 1 + r.Intn(3); i > 0; i-- {
			send("a", k, c)
			k += c
			time.Sleep(time.Duration(r.Intn(80)) * time.Millisecond)
		}
		close(p.gate)
		send("a", k, 3)
	}
	drained := func() bool { return atomic.LoadInt64(&p.n)+atomic.LoadInt64(&dc.n) >= atomic.LoadInt64(&put) }
	if vt.Eventually(8*time.Second, drained) {
		time.Sleep(interval + 120*time.Millisecond) // would anything be sent twice?
	}
	e.Log(R{"op": "end"})
}

func batchTasks() []vt.Task {
	var ts []vt.Task
	for i := int64(0); i < vt.N; i++ {
		kind := []string{"seq", "many", "seq", "flood"}[i%4]
		if i%48 == 1 {
			kind = "hang"
		}
		n := name("%s-%d", kind, i)
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) { batchEp(e, n, kind) }})
	}
	return ts
}
