// Driver for the read client, over a scripted HTTP client and a scripted gRPC server.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/blang/semver"
	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
)

type R = vt.R

type ctxKey struct{}

const host = "https://lc.example:8081"

// query turns url.Values into sorted [key, value...] lists.
func query(v url.Values) [][]string {
	res := [][]string{}
	for k, vs := range v {
		res = append(res, append([]string{k}, vs...))
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

type call struct {
	R
	want interface{} // what a good answer holds
	run  func(c *client.Client, ctx context.Context) (val interface{}, err error)
	body func() string // a good body
	msg  proto.Message // a good gRPC answer
}

type h struct {
	e      *vt.Episode
	r      *rand.Rand
	ctx    context.Context
	cur    *call
	script []R
	pos    int
	bodies int
	upt    int64
	ver    semver.Version
}

func (x *h) take(op string) R {
	if x.pos < len(x.script) && vt.S(x.script[x.pos], "op") == op {
		x.pos++
		return x.script[x.pos-1]
	}
	return nil
}

type rdr struct {
	io.Reader
	x      *h
	closed bool
}

func (b *rdr) Close() error {
	if !b.closed {
		b.closed = true
		b.x.e.Log(R{"op": "close"})
	}
	return nil
}

type cutReader struct{ r io.Reader }

func (c cutReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

func (x *h) Do(req *http.Request) (*http.Response, error) {
	path, get := "bad", false
	var q url.Values
	if u, err := url.Parse(req.URL.String()); err == nil {
		path, q = u.Path, u.Query()
		get = req.Method == "GET" && u.Scheme+"://"+u.Host == host && (req.Body == nil || req.Body == http.NoBody) && u.Fragment == ""
	}
	x.e.Log(R{"op": "req", "path": path, "query": x.canon(query(q)), "ctx": req.Context().Value(ctxKey{}) == x.ctx.Value(ctxKey{}), "get": get})
	a := x.take("ans")
	if a == nil {
		a = R{"st": 0, "body": "none"}
	}
	st, kind := vt.I(a, "st"), vt.S(a, "body")
	defer func() {
		if st != 200 {
			x.ver = client.LAST_LOG_CACHE_VERSION_WITHOUT_INFO
		}
	}()
	x.e.Log(R{"op": "ans", "st": st, "body": kind})
	if st == 0 {
		return nil, errors.New("no route to host")
	}
	info := path == "/api/v1/info"
	good := func() string {
		if !info {
			return x.cur.body()
		}
		return x.info(kind)
	}
	var b io.Reader
	switch kind {
	case "none":
		b = strings.NewReader("")
	case "junk":
		js := []string{"<html>", "{", `{"status":`, "[1,2", `"x"`, "nul"}
		if x.cur.R["m"] == "PromQL" || x.cur.R["m"] == "PromQLRange" {
			js = append(js, `{"status":"success","data":{"resultType":"nonsense","result":[]}}`, `{}`,
				`{"status":"success","data":{"resultType":"matrix","result":[{"metric":{},"values":[[1]]}]}}`,
				`{"status":"success","data":{"resultType":"matrix","result":[{"metric":{},"values":[["1","2"]]}]}}`,
				`{"status":"success","data":{"resultType":"matrix","result":[{"metric":{},"values":[[1,2]]}]}}`)
		}
		if info && x.cur.R["m"] != "Uptime" {
			js = append(js, `{}`, `{"version":"","vm_uptime":"3"}`, `{"version":"two","vm_uptime":"3"}`, `{"version":"2.0","vm_uptime":"3"}`)
		}
		if info && x.cur.R["m"] == "Uptime" {
			js = append(js, `{"version":"2.0.0","vm_uptime":"soon"}`, `{"version":"2.0.0","vm_uptime":"1.5"}`, `{"version":"2.0.0","vm_uptime":"99999999999999999999"}`)
		}
		b = strings.NewReader(js[x.r.Intn(len(js))])
	case "cut":
		s := "{"
		if x.cur.R["m"] == "Meta" || x.cur.R["m"] == "Read" || info || strings.HasSuffix(x.cur.R["m"].(string), "Raw") {
			g := strings.TrimSpace(func() string {
				if info {
					return x.info("new")
				}
				return x.cur.body()
			}())
			s = g[:1+x.r.Intn(len(g)-1)]
		}
		b = cutReader{strings.NewReader(s)}
	default:
		b = bytes.NewReader([]byte(good()))
	}
	return &http.Response{StatusCode: st, Body: &rdr{Reader: b, x: x}, Header: http.Header{}}, nil
}

func (x *h) info(kind string) string {
	var vs []string
	up := `,"vm_uptime":"` + fmt.Sprint(x.upt) + `"`
	switch kind {
	case "new":
		vs = []string{"2.0.0", "2.0.1", "2.6.9", "3.0.0", "10.0.0", "2.0.0+build"}
	case "old":
		vs = []string{"1.4.8", "1.99.0", "0.0.1", "1.10.0", "2.0.0-rc.1"}
	case "noup":
		vs = []string{"2.0.0"}
		up = []string{"", `,"vm_uptime":""`}[x.r.Intn(2)]
	}
	v := vs[x.r.Intn(len(vs))]
	x.ver = semver.MustParse(v)
	return `{"version":"` + v + `"` + up + "}\n"
}

// canon replaces the decimal times of a query by the canonical ones if they are right.
func (x *h) canon(q [][]string) [][]string { return q }

// ---------------------------------------------------------------- arguments

var srcs = []string{"app", "a b", "a/b", "c%2Fd", "x?y=z", "x#y", "ü", "1-2_3.4~5", "a+b", "p%q", "q&r", "sömé:thing@x"}

func (x *h) millis(ms int64) string { return fmt.Sprintf("%d.%03d", ms/1000, ms%1000) }

func (x *h) gen(m string) *call {
	r := x.r
	c := &call{R: R{"op": "call", "m": m, "badaddr": false, "src": "", "query": [][]string{}, "rpc": R{"z": "z"}}}
	kv := url.Values{}
	t0 := int64(1500000000000) + r.Int63n(100000000000)
	switch m {
	case "Read":
		src := srcs[r.Intn(len(srcs))]
		c.R["src"] = src
		start := r.Int63() - r.Int63n(2)*int64(r.Intn(1000))
		if r.Intn(5) == 0 {
			start = int64(r.Intn(3)) - 1
		}
		kv.Set("start_time", strconv.FormatInt(start, 10))
		a := R{"src": src, "start": fmt.Sprint(start), "end": "0", "limit": "0", "types": []string{}, "desc": false, "name": ""}
		var opts []client.ReadOption
		if r.Intn(2) == 0 {
			v := r.Int63()
			kv.Set("end_time", strconv.FormatInt(v, 10))
			a["end"] = fmt.Sprint(v)
			opts = append(opts, client.WithEndTime(time.Unix(0, v)))
		}
		if r.Intn(2) == 0 {
			v := r.Intn(2000) - 3
			kv.Set("limit", strconv.Itoa(v))
			a["limit"] = fmt.Sprint(v)
			opts = append(opts, client.WithLimit(v))
		}
		if r.Intn(2) == 0 {
			var ts []logcache_v1.EnvelopeType
			var ns []string
			for _, i := range r.Perm(6)[:1+r.Intn(4)] {
				ts = append(ts, logcache_v1.EnvelopeType(i))
				ns = append(ns, logcache_v1.EnvelopeType(i).String())
			}
			kv["envelope_types"] = ns
			a["types"] = ns
			opts = append(opts, client.WithEnvelopeTypes(ts...))
		}
		if r.Intn(3) == 0 {
			kv.Set("descending", "true")
			a["desc"] = true
			opts = append(opts, client.WithDescending())
		}
		if r.Intn(3) == 0 {
			n := []string{".*cpu$", "a b&c=d", "ü+%", "^x#$"}[r.Intn(4)]
			kv.Set("name_filter", n)
			a["name"] = n
			opts = append(opts, client.WithNameFilter(n))
		}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		c.R["rpc"] = a
		c.run = func(cl *client.Client, ctx context.Context) (interface{}, error) {
			v, err := cl.Read(ctx, src, time.Unix(0, start), opts...)
			if v == nil && err != nil {
				return nil, err
			}
			return v, err
		}
		var es []*loggregator_v2.Envelope
		for i := 0; i < r.Intn(5); i++ {
			es = append(es, randEnv(r))
		}
		m := &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}}
		if len(es) == 0 && r.Intn(2) == 0 {
			m.Envelopes = nil
		}
		c.want, c.msg = es, m
		c.body = func() string {
			s, _ := (&jsonpb.Marshaler{OrigName: r.Intn(2) == 0, EmitDefaults: r.Intn(2) == 0}).MarshalToString(m)
			return s
		}
	case "Meta":
		mm := map[string]*logcache_v1.MetaInfo{}
		for i := 0; i < r.Intn(5); i++ {
			mm[srcs[r.Intn(len(srcs))]] = &logcache_v1.MetaInfo{Count: r.Int63(), Expired: r.Int63n(5), OldestTimestamp: r.Int63(), NewestTimestamp: -r.Int63()}
		}
		m := &logcache_v1.MetaResponse{Meta: mm}
		c.want, c.msg = mm, m
		c.R["rpc"] = R{"local": false}
		c.body = func() string {
			s, _ := (&jsonpb.Marshaler{OrigName: true, EmitDefaults: true}).MarshalToString(m)
			return s
		}
		c.run = func(cl *client.Client, ctx context.Context) (interface{}, error) {
			v, err := cl.Meta(ctx)
			if v == nil && err != nil {
				return nil, err
			}
			return v, err
		}
	case "PromQL", "PromQLRaw":
		qs := []string{`up{source_id="a b"}`, "1+1", `sum(rate(x{source_id="p&q"}[5m]))`, "ü%20"}[r.Intn(4)]
		kv.Set("query", qs)
		a := R{"query": qs, "time": ""}
		var opts []client.PromQLOption
		if r.Intn(2) == 0 {
			ms := t0
			kv.Set("time", x.millis(ms))
			a["time"] = x.millis(ms)
			opts = append(opts, client.WithPromQLTime(time.Unix(0, ms*1e6)))
		}
		c.R["rpc"] = a
		if m == "PromQLRaw" {
			x.raw(c, func(cl *client.Client, ctx context.Context) (*client.PromQLQueryResult, error) {
				return cl.PromQLRaw(ctx, qs, opts...)
			})
			break
		}
		msg, body := randInstant(r)
		c.want, c.msg = msg, msg
		c.body = func() string { return body }
		c.run = func(cl *client.Client, ctx context.Context) (interface{}, error) {
			v, err := cl.PromQL(ctx, qs, opts...)
			if v == nil {
				return nil, err
			}
			return v, err
		}
	case "PromQLRange", "PromQLRangeRaw":
		qs := []string{`up{source_id="a b"}`, `x{source_id="a+b"}`}[r.Intn(2)]
		kv.Set("query", qs)
		a := R{"query": qs, "start": "", "end": "", "step": ""}
		var opts []client.PromQLOption
		if r.Intn(2) == 0 {
			kv.Set("start", x.millis(t0))
			a["start"] = x.millis(t0)
			opts = append(opts, client.WithPromQLStart(time.Unix(0, t0*1e6)))
		}
		if r.Intn(2) == 0 {
			t1 := t0 + int64(r.Intn(100000))
			kv.Set("end", x.millis(t1))
			a["end"] = x.millis(t1)
			opts = append(opts, client.WithPromQLEnd(time.Unix(0, t1*1e6)))
		}
		if r.Intn(2) == 0 {
			s := []string{"1m", "15", "1.5s"}[r.Intn(3)]
			kv.Set("step", s)
			a["step"] = s
			opts = append(opts, client.WithPromQLStep(s))
		}
		c.R["rpc"] = a
		if m == "PromQLRangeRaw" {
			x.raw(c, func(cl *client.Client, ctx context.Context) (*client.PromQLQueryResult, error) {
				return cl.PromQLRangeRaw(ctx, qs, opts...)
			})
			break
		}
		ss, js := randSeries(r)
		msg := &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: ss}}}
		c.want, c.msg = msg, msg
		c.body = func() string { return `{"status":"success","data":{"resultType":"matrix","result":` + js + "}}\n" }
		c.run = func(cl *client.Client, ctx context.Context) (interface{}, error) {
			v, err := cl.PromQLRange(ctx, qs, opts...)
			if v == nil {
				return nil, err
			}
			return v, err
		}
	case "Version":
		c.run = func(cl *client.Client, ctx context.Context) (interface{}, error) {
			v, err := cl.LogCacheVersion(ctx)
			if err != nil && v.Equals(semver.Version{}) {
				return nil, err
			}
			return v, err
		}
	case "Uptime":
		c.run = func(cl *client.Client, ctx context.Context) (interface{}, error) {
			v, err := cl.LogCacheVMUptime(ctx)
			if err != nil && v == -1 {
				return nil, err
			}
			return v, err
		}
	}
	c.R["query"] = query(kv)
	return c
}

func (x *h) raw(c *call, f func(*client.Client, context.Context) (*client.PromQLQueryResult, error)) {
	r := x.r
	res := &client.PromQLQueryResult{}
	if r.Intn(2) == 0 {
		_, js := randSeries(r)
		res = &client.PromQLQueryResult{Status: "success", Data: client.PromQLResultData{ResultType: "matrix", Result: []byte(js)}}
		c.body = func() string { return `{"status":"success","data":{"resultType":"matrix","result":` + js + "}}\n" }
	} else {
		res = &client.PromQLQueryResult{Status: "error", ErrorType: "internal", Error: "it's \"broken\""}
		c.body = func() string { return `{"status":"error","errorType":"internal","error":"it's \"broken\""}` }
	}
	c.want = res
	c.run = func(cl *client.Client, ctx context.Context) (interface{}, error) {
		v, err := f(cl, ctx)
		if v == nil {
			return nil, err
		}
		return v, err
	}
}

func randEnv(r *rand.Rand) *loggregator_v2.Envelope {
	e := &loggregator_v2.Envelope{Timestamp: r.Int63() - r.Int63(), SourceId: srcs[r.Intn(len(srcs))], InstanceId: fmt.Sprint(r.Intn(9)), Tags: map[string]string{"k": "v", "ü": fmt.Sprint(r.Intn(5))}}
	switch r.Intn(6) {
	case 0:
		b := make([]byte, r.Intn(20))
		r.Read(b)
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: b, Type: loggregator_v2.Log_Type(r.Intn(2))}}
	case 1:
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "c", Delta: r.Uint64(), Total: r.Uint64()}}
	case 2:
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{"g": {Unit: "u", Value: r.NormFloat64() * 1e9}, "h": {Value: 0.1}}}}
	case 3:
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: "t", Start: r.Int63(), Stop: r.Int63()}}
	case 4:
		e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: "t", Body: "b"}}
	}
	return e
}

func randVal(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return math.Inf(1)
	case 2:
		return r.NormFloat64() * 1e-9
	case 3:
		return r.NormFloat64() * 1e18
	}
	return r.NormFloat64()
}

func randPoint(r *rand.Rand) (*logcache_v1.PromQL_Point, string) {
	ms := int64(1500000000000) + r.Int63n(100000000000)
	t := fmt.Sprintf("%d.%03d", ms/1000, ms%1000)
	v := randVal(r)
	return &logcache_v1.PromQL_Point{Time: t, Value: v}, fmt.Sprintf(`[%s,"%s"]`, t, strconv.FormatFloat(v, 'g', -1, 64))
}

func randMetric(r *rand.Rand) (map[string]string, string) {
	m := map[string]string{"a": fmt.Sprint(r.Intn(5)), "b-c": "x y"}
	return m, fmt.Sprintf(`{"a":"%s","b-c":"x y"}`, m["a"])
}

func randSeries(r *rand.Rand) ([]*logcache_v1.PromQL_Series, string) {
	var ss []*logcache_v1.PromQL_Series
	var js []string
	for i := 0; i < r.Intn(4); i++ {
		m, mj := randMetric(r)
		s := &logcache_v1.PromQL_Series{Metric: m}
		var pj []string
		for k := 0; k <= r.Intn(4); k++ {
			p, j := randPoint(r)
			s.Points = append(s.Points, p)
			pj = append(pj, j)
		}
		ss = append(ss, s)
		js = append(js, `{"metric":`+mj+`,"values":[`+strings.Join(pj, ",")+`]}`)
	}
	return ss, "[" + strings.Join(js, ",") + "]"
}

func randInstant(r *rand.Rand) (*logcache_v1.PromQL_InstantQueryResult, string) {
	wrap := func(ty, js string) string {
		return `{"status":"success","data":{"resultType":"` + ty + `","result":` + js + "}}"
	}
	switch r.Intn(3) {
	case 0:
		p, j := randPoint(r)
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: p.Time, Value: p.Value}}}, wrap("scalar", j)
	case 1:
		var ss []*logcache_v1.PromQL_Sample
		var js []string
		for i := 0; i < r.Intn(4); i++ {
			m, mj := randMetric(r)
			p, j := randPoint(r)
			ss = append(ss, &logcache_v1.PromQL_Sample{Metric: m, Point: p})
			js = append(js, `{"metric":`+mj+`,"value":`+j+`}`)
		}
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{Samples: ss}}}, wrap("vector", "["+strings.Join(js, ",")+"]")
	}
	ss, js := randSeries(r)
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: ss}}}, wrap("matrix", js)
}

func (x *h) same(c *call, v interface{}) bool {
	switch w := c.want.(type) {
	case []*loggregator_v2.Envelope:
		g, ok := v.([]*loggregator_v2.Envelope)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !proto.Equal(w[i], g[i]) {
				return false
			}
		}
		return true
	case map[string]*logcache_v1.MetaInfo:
		g, ok := v.(map[string]*logcache_v1.MetaInfo)
		return ok && proto.Equal(&logcache_v1.MetaResponse{Meta: w}, &logcache_v1.MetaResponse{Meta: g})
	case proto.Message:
		g, ok := v.(proto.Message)
		return ok && proto.Equal(w, g)
	case *client.PromQLQueryResult:
		return reflect.DeepEqual(w, v)
	}
	switch c.R["m"] {
	case "Version":
		g, ok := v.(semver.Version)
		return ok && g.Equals(x.ver)
	case "Uptime":
		return v == x.upt
	}
	return false
}

// ---------------------------------------------------------------- gRPC

type server struct {
	mu sync.Mutex
	x  *h
}

func (s *server) answer(args R) (proto.Message, error) {
	s.mu.Lock()
	x := s.x
	s.mu.Unlock()
	a := x.take("rpc")
	ok := a != nil && vt.B(a, "ok")
	x.e.Log(R{"op": "rpc", "args": args, "ok": ok})
	if !ok {
		return nil, errors.New("nope")
	}
	return x.cur.msg, nil
}

func (s *server) Read(ctx context.Context, r *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	ts := []string{}
	for _, t := range r.EnvelopeTypes {
		ts = append(ts, t.String())
	}
	m, err := s.answer(R{"src": r.SourceId, "start": fmt.Sprint(r.StartTime), "end": fmt.Sprint(r.EndTime), "limit": fmt.Sprint(r.Limit), "types": ts, "desc": r.Descending, "name": r.NameFilter})
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.ReadResponse), nil
}

func (s *server) Meta(ctx context.Context, r *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	m, err := s.answer(R{"local": r.LocalOnly})
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.MetaResponse), nil
}

func (s *server) InstantQuery(ctx context.Context, r *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	m, err := s.answer(R{"query": r.Query, "time": r.Time})
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.PromQL_InstantQueryResult), nil
}

func (s *server) RangeQuery(ctx context.Context, r *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	m, err := s.answer(R{"query": r.Query, "start": r.Start, "end": r.End, "step": r.Step})
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.PromQL_RangeQueryResult), nil
}

var (
	srv  = &server{}
	addr string
	rpcc *client.Client
)

func serve() {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vt.Fatal("%s", err)
	}
	g := grpc.NewServer()
	logcache_v1.RegisterEgressServer(g, srv)
	logcache_v1.RegisterPromQLQuerierServer(g, srv)
	go g.Serve(lis)
	addr = lis.Addr().String()
	rpcc = client.NewClient(addr, client.WithViaGRPC(grpc.WithInsecure()))
}

func episode(name string, scn []R) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		x := &h{e: e, r: vt.Rand(name), script: scn}
		srv.mu.Lock()
		srv.x = x
		srv.mu.Unlock()
		httpc := client.NewClient(host, client.WithHTTPClient(x))
		for n := 0; ; n++ {
			o := x.take("call")
			if o == nil {
				if x.pos < len(x.script) {
					// the call did not ask for what it should have: the trace shows it
					x.pos++
					continue
				}
				return
			}
			x.upt = x.r.Int63n(1 << 40)
			x.ver = client.LAST_LOG_CACHE_VERSION_WITHOUT_INFO
			c := x.gen(vt.S(o, "m"))
			x.cur = c
			g, dead := vt.B(o, "grpc"), vt.B(o, "dead")
			c.R["grpc"], c.R["dead"] = g, dead
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, n))
			x.ctx = ctx
			if dead {
				cancel()
			}
			cl := httpc
			if g {
				cl = rpcc
			}
			e.Log(c.R)
			var v interface{}
			var err error
			ok, crash := vt.Within(20*time.Second, func() { v, err = c.run(cl, ctx) })
			cancel()
			if !ok {
				e.Log(R{"op": "crash or hang", "what": crash})
				return
			}
			e.Log(R{"op": "ret", "err": err != nil, "zero": v == nil, "same": err == nil && x.same(c, v)})
		}
	}
}

// badAddr: an address no URL can be made from.
func badAddr(m string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		x := &h{e: e, r: vt.Rand(m), ctx: context.Background()}
		cl := client.NewClient("://\x7f", client.WithHTTPClient(x))
		c := x.gen(m)
		x.cur = c
		c.R["badaddr"], c.R["grpc"], c.R["dead"] = true, false, false
		e.Log(c.R)
		v, err := c.run(cl, x.ctx)
		e.Log(R{"op": "ret", "err": err != nil, "zero": v == nil, "same": false})
	}
}

// cancelled: over real HTTP, a call whose context ends comes back, with an error.
func cancelled(m string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		block := make(chan struct{})
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			vt.Fatal("%s", err)
		}
		s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { <-block })}
		go s.Serve(lis)
		x := &h{e: e, r: vt.Rand(m), ctx: context.Background()}
		cl := client.NewClient("http://"+lis.Addr().String(), client.WithHTTPClient(&http.Client{Timeout: 60 * time.Second}))
		c := x.gen(m)
		ctx, cancel := context.WithCancel(context.Background())
		time.AfterFunc(30*time.Millisecond, cancel)
		var v interface{}
		e.Cfg = R{"z": 0}
		ok, _ := vt.Within(10*time.Second, func() { v, err = c.run(cl, ctx) })
		if !ok || err == nil || v != nil {
			e.Log(R{"op": "cancelled call does not fail", "returned": ok})
		}
		close(block)
		s.Close()
	}
}

func main() {
	vt.Open()
	serve()
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		n := fmt.Sprintf("scn-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: episode(n, s)})
		// calls that succeed get more arguments and answers tried
		reps := 0
		for _, o := range s {
			if o["op"] == "rpc" || o["body"] == "good" && vt.I(o, "st") == 200 {
				reps = 40
			}
		}
		for k := 0; k < reps; k++ {
			n := fmt.Sprintf("scn-%d-%d", i, k)
			ts = append(ts, vt.Task{Name: n, Run: episode(n, s)})
		}
	}
	for _, m := range []string{"Read", "Meta", "PromQL", "PromQLRange", "PromQLRaw", "PromQLRangeRaw", "Version", "Uptime"} {
		ts = append(ts, vt.Task{Name: "badaddr-" + m, Run: badAddr(m)}, vt.Task{Name: "cancel-" + m, Run: cancelled(m)})
	}
	_ = ioutil.Discard
	vt.RunAll(ts, 1)
	vt.Close()
}
