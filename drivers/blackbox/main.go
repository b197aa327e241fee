// Driver for the reliability probe.
package main

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/blackbox"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtx"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

type R = vt.R

// ---------------------------------------------------------------- emission

type ingress struct {
	mu       sync.Mutex
	e        *vt.Episode
	src      string
	interval time.Duration
	base     int64 // intervals
	fail     []bool
	k        int
	mode     string
	metrics  map[string]float64
	closed   bool
}

func dl(ctx context.Context) bool {
	d, ok := ctx.Deadline()
	return ok && time.Until(d) <= time.Minute
}

func metricList(m map[string]*loggregator_v2.GaugeValue) []R {
	res := []R{}
	for k, v := range m {
		res = append(res, R{"name": k, "v": fmt.Sprintf("%016x", math.Float64bits(v.GetValue())), "unit": v.GetUnit()})
	}
	sort.Slice(res, func(i, j int) bool { return res[i]["name"].(string) < res[j]["name"].(string) })
	return res
}

func (x *ingress) Send(ctx context.Context, q *logcache_v1.SendRequest, _ ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
	now := time.Now()
	x.mu.Lock()
	defer x.mu.Unlock()
	ok := x.k >= len(x.fail) || !x.fail[x.k]
	x.k++
	if x.closed {
		return nil, errors.New("over")
	}
	b := q.GetEnvelopes().GetBatch()
	proper := len(b) == 1 && !q.GetLocalOnly() && b[0].GetSourceId() == x.src
	var ts int64
	var g map[string]*loggregator_v2.GaugeValue
	if len(b) > 0 {
		ts = b[0].GetTimestamp()
		g = b[0].GetGauge().GetMetrics()
	}
	if x.mode == "emit" {
		v := g["blackbox_test_metric"]
		proper = proper && len(g) == 1 && v.GetValue() == 10 && v.GetUnit() == "ms"
		x.e.Log(R{"op": "send", "proper": proper, "aligned": ts%int64(x.interval) == 0, "dl": dl(ctx), "t": ts/int64(x.interval) - x.base,
			"now": now.UnixNano()/int64(x.interval) - x.base, "ok": ok})
	} else {
		proper = proper && ts <= now.UnixNano() && now.UnixNano()-ts < int64(20*time.Second)
		x.e.Log(R{"op": "sendreport", "proper": proper, "dl": dl(ctx), "metrics": metricList(g), "ok": ok})
	}
	if !ok {
		return nil, errors.New("no")
	}
	return &logcache_v1.SendResponse{}, nil
}

func emission(name string, ops []R) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		iv := []time.Duration{40 * time.Millisecond, 50 * time.Millisecond, 80 * time.Millisecond}[r.Intn(3)]
		start := time.Now()
		x := &ingress{e: e, src: "src-" + name, interval: iv, base: start.UnixNano()/int64(iv) - 1, mode: "emit"}
		for _, o := range ops {
			x.fail = append(x.fail, !vt.B(o, "ok"))
		}
		go blackbox.StartEmittingTestMetrics(x.src, iv, x)
		want := 6 + len(ops)
		time.Sleep(time.Duration(want) * iv)
		x.mu.Lock()
		el := int(time.Since(start) / iv)
		x.closed = true
		x.mu.Unlock()
		e.Log(R{"op": "elapsed", "intervals": el})
	}
}

// ---------------------------------------------------------------- measurement

type queryable struct {
	e      *vt.Episode
	rc     blackbox.ReliabilityCalculator
	kind   string
	points int
	before time.Time
	known  bool
	secs   int64
}

func (q *queryable) PromQL(ctx context.Context, text string, opts ...client.PromQLOption) (*logcache_v1.PromQL_InstantQueryResult, error) {
	now := time.Now()
	var t int64 = -1
	for _, o := range opts {
		v := map[string][]string{}
		o(nil, v)
		if x := v["time"]; len(x) == 1 {
			f, _ := strconv.ParseFloat(x[0], 64)
			t = int64(math.Round(f * 1000))
		}
	}
	ms := func(d time.Duration) int64 { return int64(d / time.Millisecond) }
	lag := ms(q.rc.WindowLag)
	b, a := q.before.UnixNano()/1e6-lag-t, now.UnixNano()/1e6-lag-t
	clamp := func(v int64) int64 {
		if v > 1<<30 {
			return 1 << 30
		}
		if v < -(1 << 30) {
			return -(1 << 30)
		}
		return v
	}
	q.e.Log(R{"op": "query", "text": text, "dl": dl(ctx), "aligned": t%ms(q.rc.SampleInterval) == 0, "early": clamp(b), "late": clamp(a)})
	q.e.Log(R{"op": "qanswer", "kind": q.kind, "points": q.points})
	switch q.kind {
	case "error":
		return nil, errors.New("no")
	case "empty":
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{}}}, nil
	case "notmatrix":
		return []*logcache_v1.PromQL_InstantQueryResult{
			{},
			{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: "1", Value: 3}}},
			{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{Samples: []*logcache_v1.PromQL_Sample{{}}}}},
		}[rand.Intn(3)], nil
	}
	s := &logcache_v1.PromQL_Series{Metric: map[string]string{"source_id": q.rc.SourceId}}
	for i := 0; i < q.points; i++ {
		s.Points = append(s.Points, &logcache_v1.PromQL_Point{Time: fmt.Sprintf("%d.000", 1500000000+i), Value: 10})
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{s}}}}, nil
}

func (q *queryable) LogCacheVMUptime(ctx context.Context) (int64, error) {
	q.e.Log(R{"op": "uptime", "known": q.known, "secs": q.secs})
	if !q.known {
		return -1, errors.New("no")
	}
	return q.secs, nil
}

func calc(name string, o R) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		sec := time.Second
		em := []time.Duration{sec, 2 * sec, 500 * time.Millisecond, 100 * time.Millisecond, 10 * sec}[r.Intn(5)]
		exp := 1 + r.Intn(700)
		if exp > 100 && em < sec {
			exp = 100
		}
		for (em*time.Duration(exp))%sec != 0 {
			exp++
		}
		rc := blackbox.ReliabilityCalculator{
			SampleInterval:   []time.Duration{sec, 15 * sec, 60 * sec, 100 * time.Millisecond}[r.Intn(4)],
			WindowInterval:   em * time.Duration(exp),
			WindowLag:        []time.Duration{0, sec, 15 * time.Minute, 1234 * time.Millisecond}[r.Intn(4)],
			EmissionInterval: em,
			SourceId:         []string{"src", "a-b-c", "8e0c2a1b-0000"}[r.Intn(3)],
			InfoLogger:       log.New(ioutil.Discard, "", 0),
			ErrorLogger:      log.New(ioutil.Discard, "", 0),
		}
		e.Cfg = R{"text": fmt.Sprintf(`blackbox_test_metric{source_id="%s"}[%ds]`, rc.SourceId, rc.WindowInterval/sec), "sample": int(rc.SampleInterval / time.Millisecond)}
		// the four classes: nothing, one, nearly all, all (or more)
		pts := map[int]int{0: 0, 1: 1, 2: max(exp-1, 0), 3: exp + r.Intn(2)*r.Intn(3)}[vt.I(o, "points")]
		q := &queryable{e: e, rc: rc, kind: vt.S(o, "kind"), points: pts}
		q.before = time.Now()
		v, err := rc.Calculate(q)
		num := -1
		if k := math.Round(v * float64(exp)); math.Abs(v*float64(exp)-k) < 1e-6 && k < 1e6 {
			num = int(k)
		}
		e.Log(R{"op": "result", "ok": err == nil, "num": num})
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func report(name string, ops []R) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		m := map[string]float64{}
		g := map[string]*loggregator_v2.GaugeValue{}
		for i := 0; i < vt.I(ops[0], "m"); i++ {
			k := []string{"blackbox.grpc_reliability", "blackbox.http_reliability", "x"}[i]
			m[k] = []float64{0, 1, 0.995, 1.01, r.Float64()}[r.Intn(5)]
			g[k] = &loggregator_v2.GaugeValue{Unit: "%", Value: m[k]}
		}
		x := &ingress{e: e, src: "src-" + name, mode: "report"}
		q := &queryable{e: e, known: false}
		for _, o := range ops[1:] {
			switch vt.S(o, "op") {
			case "uptime":
				q.known, q.secs = vt.B(o, "known"), int64(vt.I(o, "secs"))
			case "sendreport":
				x.fail = []bool{!vt.B(o, "ok")}
			}
		}
		var qc blackbox.QueryableClient
		if vt.B(ops[0], "http") {
			qc = q
		}
		e.Log(R{"op": "report", "metrics": metricList(g), "http": vt.B(ops[0], "http")})
		if ok, crash := vt.Within(30*time.Second, func() { blackbox.EmitMeasuredMetrics(x.src, x, qc, m) }); !ok {
			e.Log(R{"op": "hang or crash", "what": crash})
			return
		}
		e.Log(R{"op": "reported"})
	}
}

// ---------------------------------------------------------------- the built program

type world struct {
	mu       sync.Mutex
	e        *vt.Episode
	src      string
	interval time.Duration
	base     int64
	grpcOK   func() (bool, int)
	httpOK   func() (bool, int)
	uptime   func() (bool, int)
	sendOK   func() bool
	exp      int
	over     bool
}

func (w *world) log(r R) {
	if !w.over {
		w.e.Log(r)
	}
}

func (w *world) Send(ctx context.Context, q *logcache_v1.SendRequest) (*logcache_v1.SendResponse, error) {
	now := time.Now()
	w.mu.Lock()
	defer w.mu.Unlock()
	b := q.GetEnvelopes().GetBatch()
	if len(b) != 1 {
		w.log(R{"op": "bad batch"})
		return &logcache_v1.SendResponse{}, nil
	}
	g := b[0].GetGauge().GetMetrics()
	ts := b[0].GetTimestamp()
	src := b[0].GetSourceId() == w.src
	if v, ok := g["blackbox_test_metric"]; ok {
		ok := w.sendOK()
		w.log(R{"op": "send", "proper": src && len(g) == 1 && v.GetValue() == 10 && v.GetUnit() == "ms", "aligned": ts%int64(w.interval) == 0, "t": ts/int64(w.interval) - w.base,
			"now": now.UnixNano()/int64(w.interval) - w.base, "ok": ok})
		if !ok {
			return nil, errors.New("no")
		}
		return &logcache_v1.SendResponse{}, nil
	}
	ms := []R{}
	proper := src && ts <= now.UnixNano() && now.UnixNano()-ts < int64(20*time.Second)
	for _, n := range []string{"blackbox.grpc_reliability", "blackbox.http_reliability"} {
		if v, ok := g[n]; ok {
			k := v.GetValue() * float64(w.exp)
			ms = append(ms, R{"name": n, "points": int(math.Round(k))})
			proper = proper && v.GetUnit() == "%" && math.Abs(k-math.Round(k)) < 1e-6
		}
	}
	w.log(R{"op": "sendreport", "proper": proper && len(ms) == len(g), "metrics": ms})
	return &logcache_v1.SendResponse{}, nil
}

func (w *world) InstantQuery(ctx context.Context, q *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	ok, pts := w.grpcOK()
	w.log(R{"op": "measure", "path": "grpc", "text": q.GetQuery(), "ok": ok, "points": pts})
	if !ok {
		return nil, errors.New("no")
	}
	s := &logcache_v1.PromQL_Series{}
	for i := 0; i < pts; i++ {
		s.Points = append(s.Points, &logcache_v1.PromQL_Point{Time: fmt.Sprintf("%d.000", 1500000000+i), Value: 10})
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{s}}}}, nil
}

func (w *world) RangeQuery(context.Context, *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	return nil, errors.New("no")
}

func (w *world) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if q.URL.Path == "/oauth/token" {
		json.NewEncoder(rw).Encode(map[string]string{"access_token": "tok", "token_type": "bearer"})
		return
	}
	if !strings.EqualFold(q.Header.Get("Authorization"), "bearer tok") {
		w.log(R{"op": "no token"})
	}
	switch q.URL.Path {
	case "/api/v1/query":
		ok, pts := w.httpOK()
		w.log(R{"op": "measure", "path": "http", "text": q.URL.Query().Get("query"), "ok": ok, "points": pts})
		if !ok {
			rw.WriteHeader(500)
			return
		}
		var ps []string
		for i := 0; i < pts; i++ {
			ps = append(ps, fmt.Sprintf(`[%d.000,"10"]`, 1500000000+i))
		}
		fmt.Fprintf(rw, `{"status":"success","data":{"resultType":"matrix","result":[{"metric":{},"values":[%s]}]}}`, strings.Join(ps, ","))
	case "/api/v1/info":
		known, secs := w.uptime()
		w.log(R{"op": "uptime", "known": known, "secs": secs})
		if !known {
			rw.WriteHeader(500)
			return
		}
		fmt.Fprintf(rw, `{"version":"2.0.0","vm_uptime":"%d"}`, secs)
	default:
		w.log(R{"op": "odd path " + q.URL.Path})
		rw.WriteHeader(404)
	}
}

func program(bin string, ca *vtx.CA, pair vtx.Pair, name string, enabled bool) vt.Task {
	return vt.Task{Name: name, Run: func(e *vt.Episode) {
		r := vt.Rand(name)
		w := &world{e: e, src: "src-" + name, interval: 200 * time.Millisecond, exp: 25}
		pick := func(badShare int) func() (bool, int) {
			return func() (bool, int) {
				if r.Intn(100) < badShare {
					return false, 0
				}
				return true, r.Intn(26)
			}
		}
		w.grpcOK, w.httpOK = pick(30), pick(30)
		w.uptime = func() (bool, int) {
			switch r.Intn(5) {
			case 0:
				return false, 0
			case 1:
				return true, r.Intn(600)
			}
			return true, 600 + r.Intn(1000)
		}
		w.sendOK = func() bool { return r.Intn(5) > 0 }
		e.Cfg = R{"enabled": enabled, "text": fmt.Sprintf(`blackbox_test_metric{source_id="%s"}[5s]`, w.src)}

		lis, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			vt.Fatal("%s", err)
		}
		gs := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{pair.TLS()}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: ca.Pool()})))
		logcache_v1.RegisterIngressServer(gs, w)
		logcache_v1.RegisterPromQLQuerierServer(gs, w)
		go gs.Serve(lis)
		defer gs.Stop()
		hs := httptest.NewTLSServer(w)
		defer hs.Close()

		cmd := exec.Command(bin)
		cmd.Dir = filepath.Dir(bin)
		cmd.Env = []string{"EMISSION_INTERVAL=200ms", "SAMPLE_INTERVAL=400ms", "WINDOW_INTERVAL=5s", "WINDOW_LAG=1s", "SOURCE_ID=" + w.src,
			fmt.Sprintf("CF_BLACKBOX_ENABLED=%t", enabled), "DATA_SOURCE_GRPC_ADDR=" + lis.Addr().String(), "CA_PATH=" + ca.Path, "CERT_PATH=" + pair.CertPath, "KEY_PATH=" + pair.KeyPath}
		if enabled {
			cmd.Env = append(cmd.Env, "DATA_SOURCE_HTTP_ADDR="+hs.URL, "UAA_ADDR="+hs.URL, "CLIENT_ID=id", "CLIENT_SECRET=secret", "SKIP_TLS_VERIFY=true")
		}
		var errb strings.Builder
		cmd.Stderr = &errb
		w.base = time.Now().UnixNano()/int64(w.interval) - 1
		if err := cmd.Start(); err != nil {
			vt.Fatal("%s", err)
		}
		died := make(chan struct{})
		go func() { cmd.Wait(); close(died) }()
		start := time.Now()
		running := true
		select {
		case <-died:
			running = false
		case <-time.After(5 * time.Second):
		}
		w.mu.Lock()
		el := int(time.Since(start) / w.interval)
		w.over = true
		w.mu.Unlock()
		cmd.Process.Kill()
		<-died
		what := ""
		if !running {
			if s := errb.String(); len(s) > 0 {
				what = s[:int(math.Min(float64(len(s)), 600))]
			}
		}
		e.Log(R{"op": "stop", "running": running, "rounds": 4, "intervals": el, "what": what})
	}}
}

func main() {
	vt.Open()
	var ts []vt.Task
	if vt.Mode == "program" {
		dir := vtx.Dir()
		ca := vtx.NewCA(dir, "ca")
		pair := ca.Issue("log-cache", []string{"log-cache"})
		for i := 0; i < int(vt.N); i++ {
			ts = append(ts, program(os.Getenv("VERIF_BLACKBOX_BIN"), ca, pair, fmt.Sprintf("program-%d", i), i%2 == 0))
		}
		vt.RunAll(ts, 8)
		vtx.Remove(dir)
		vt.Close()
		return
	}
	var em []vt.Task
	for i, s := range vt.Scenarios() {
		n := fmt.Sprintf("scn-%d", i)
		switch vt.S(s[0], "op") {
		case "send":
			em = append(em, vt.Task{Name: n, Run: emission(n, s)})
		case "calc":
			for k := 0; k < int(vt.N); k++ {
				nk := fmt.Sprintf("%s-%d", n, k)
				ts = append(ts, vt.Task{Name: nk, Run: calc(nk, s[0])})
			}
		case "report":
			ts = append(ts, vt.Task{Name: n, Run: report(n, s)})
		}
	}
	vt.RunAll(em, 64)
	vt.RunAll(ts, 8)
	vt.Close()
}
