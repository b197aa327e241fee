// Driver for the HTTP gateway, in front of a scripted gRPC cache.
package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtj"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtx"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

type R = vt.R

// ---------------------------------------------------------------- the fake cache

type session struct {
	e    *vt.Episode
	r    *rand.Rand
	ans  R // how to answer: answer, or abort
	went chan struct{}
	gone chan struct{}
	once sync.Once
	big  bool
}

type server struct {
	mu sync.Mutex
	m  map[string]*session
}

var srv = &server{m: map[string]*session{}}

func (s *server) add(k string, x *session) {
	s.mu.Lock()
	s.m[k] = x
	s.mu.Unlock()
}

func (s *server) del(k string) {
	s.mu.Lock()
	delete(s.m, k)
	s.mu.Unlock()
}

// canon is a JSON document with sorted keys.
func canon(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil || d.More() {
		return "no JSON: " + string(b[:min(len(b), 80)])
	}
	c, _ := json.Marshal(v)
	if len(c) > 4000 {
		return fmt.Sprintf("%d bytes, fnv %x", len(c), fnv(c))
	}
	return string(c)
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var pbj = &jsonpb.Marshaler{OrigName: true, EmitDefaults: true}

func (s *server) call(ctx context.Context, rpc string, args R, mk func(r *rand.Rand, big bool) proto.Message) (proto.Message, error) {
	md, _ := metadata.FromIncomingContext(ctx)
	var x *session
	if v := md["ep"]; len(v) > 0 {
		s.mu.Lock()
		x = s.m[v[0]]
		s.mu.Unlock()
	}
	if x == nil {
		return nil, status.Error(codes.Aborted, "who are you")
	}
	x.e.Log(R{"op": "rpc", "rpc": rpc, "args": args})
	switch vt.S(x.ans, "op") {
	case "abort":
		x.once.Do(func() { close(x.went) })
		select {
		case <-ctx.Done():
			close(x.gone)
		case <-time.After(20 * time.Second):
		}
		return nil, status.Error(codes.Canceled, "gone")
	case "answer":
		c := vt.I(x.ans, "code")
		if c != 0 {
			msg := []string{"no", `it's "broken" <b>`, "ünicode\n", "a: b", ""}[x.r.Intn(5)]
			x.e.Log(R{"op": "answer", "code": c, "msg": msg, "doc": ""})
			return nil, status.Error(codes.Code(c), msg)
		}
		m := mk(x.r, x.big)
		var doc interface{}
		switch m.(type) {
		case *logcache_v1.PromQL_InstantQueryResult, *logcache_v1.PromQL_RangeQueryResult:
			v := vtj.Result(m)
			doc = R{"status": "success", "type": v["kind"], "rows": v["rows"]}
		default:
			// what gRPC delivers: it does not tell an empty from an absent byte string
			w, _ := proto.Marshal(m)
			m2 := proto.Clone(m)
			m2.Reset()
			if err := proto.Unmarshal(w, m2); err != nil {
				vt.Fatal("unmarshal: %s", err)
			}
			j, err := pbj.MarshalToString(m2)
			if err != nil {
				vt.Fatal("marshal: %s", err)
			}
			doc = R{"json": canon([]byte(j))}
		}
		x.e.Log(R{"op": "answer", "code": 0, "msg": "", "doc": doc})
		return m, nil
	}
	x.e.Log(R{"op": "answer", "code": 2, "msg": "unscripted", "doc": ""})
	return nil, status.Error(codes.Unknown, "unscripted")
}

func s1(v interface{}) []string { return []string{fmt.Sprint(v)} }

func (s *server) Read(ctx context.Context, q *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	ts := []string{}
	for _, t := range q.GetEnvelopeTypes() {
		ts = append(ts, t.String())
	}
	m, err := s.call(ctx, "Read", R{"source_id": s1(q.GetSourceId()), "start_time": s1(q.GetStartTime()), "end_time": s1(q.GetEndTime()), "limit": s1(q.GetLimit()),
		"envelope_types": ts, "descending": s1(q.GetDescending()), "name_filter": s1(q.GetNameFilter())}, func(r *rand.Rand, big bool) proto.Message {
		m := &logcache_v1.ReadResponse{}
		if r.Intn(6) == 0 && !big {
			return m
		}
		m.Envelopes = &loggregator_v2.EnvelopeBatch{}
		n := r.Intn(5)
		if big {
			n = 1000
		}
		for i := 0; i < n; i++ {
			m.Envelopes.Batch = append(m.Envelopes.Batch, randEnv(r, big))
		}
		return m
	})
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.ReadResponse), nil
}

func (s *server) Meta(ctx context.Context, q *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	m, err := s.call(ctx, "Meta", R{"local_only": s1(q.GetLocalOnly())}, func(r *rand.Rand, big bool) proto.Message {
		mm := map[string]*logcache_v1.MetaInfo{}
		n := r.Intn(5)
		if big {
			n = 20000
		}
		for i := 0; i < n; i++ {
			mm[fmt.Sprintf("s-%d <ü>", r.Intn(100000))] = &logcache_v1.MetaInfo{Count: r.Int63(), Expired: r.Int63n(5), OldestTimestamp: r.Int63() - r.Int63(), NewestTimestamp: r.Int63()}
		}
		return &logcache_v1.MetaResponse{Meta: mm}
	})
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.MetaResponse), nil
}

func pts(r *rand.Rand, n int) []*logcache_v1.PromQL_Point {
	var ps []*logcache_v1.PromQL_Point
	for i := 0; i < n; i++ {
		ps = append(ps, &logcache_v1.PromQL_Point{Time: vtj.TimeText(r, vtj.RandTime(r)), Value: vtj.RandValue(r)})
	}
	return ps
}

func matrix(r *rand.Rand, big bool) *logcache_v1.PromQL_Matrix {
	m := &logcache_v1.PromQL_Matrix{}
	n, k := r.Intn(4), 4
	if big {
		n, k = 20, 1000
	}
	for i := 0; i < n; i++ {
		m.Series = append(m.Series, &logcache_v1.PromQL_Series{Metric: vtj.RandLabels(r, r.Intn(3)), Points: pts(r, r.Intn(k))})
	}
	return m
}

func (s *server) InstantQuery(ctx context.Context, q *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	m, err := s.call(ctx, "InstantQuery", R{"query": s1(q.GetQuery()), "time": s1(q.GetTime())}, func(r *rand.Rand, big bool) proto.Message {
		switch k := r.Intn(3); {
		case k == 0 && !big:
			p := pts(r, 1)[0]
			return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: p.Time, Value: p.Value}}}
		case k == 1 && !big:
			v := &logcache_v1.PromQL_Vector{}
			for i := r.Intn(4); i > 0; i-- {
				v.Samples = append(v.Samples, &logcache_v1.PromQL_Sample{Metric: vtj.RandLabels(r, r.Intn(3)), Point: pts(r, 1)[0]})
			}
			return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: v}}
		}
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: matrix(r, big)}}
	})
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.PromQL_InstantQueryResult), nil
}

func (s *server) RangeQuery(ctx context.Context, q *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	m, err := s.call(ctx, "RangeQuery", R{"query": s1(q.GetQuery()), "start": s1(q.GetStart()), "end": s1(q.GetEnd()), "step": s1(q.GetStep())}, func(r *rand.Rand, big bool) proto.Message {
		return &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: matrix(r, big)}}
	})
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.PromQL_RangeQueryResult), nil
}

func randEnv(r *rand.Rand, big bool) *loggregator_v2.Envelope {
	e := &loggregator_v2.Envelope{Timestamp: r.Int63() - r.Int63(), SourceId: "s/ü", InstanceId: fmt.Sprint(r.Intn(9)), Tags: map[string]string{"k": "v", "<ü>": fmt.Sprint(r.Intn(5))}}
	switch r.Intn(6) {
	case 0:
		b := make([]byte, r.Intn(20))
		r.Read(b)
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: b, Type: loggregator_v2.Log_Type(r.Intn(2))}}
	case 1:
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "c", Delta: r.Uint64(), Total: r.Uint64()}}
	case 2:
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{"g": {Unit: "u", Value: vtj.RandValue(r)}, "h": {Value: 0.1}}}}
	case 3:
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: "t", Start: r.Int63(), Stop: r.Int63()}}
	case 4:
		e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: "t", Body: "b"}}
	}
	if big {
		b := make([]byte, 3000)
		r.Read(b)
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: b}}
	}
	return e
}

// ---------------------------------------------------------------- requests

// val is one value of a parameter: how it is written and what it is.
func value(r *rand.Rand, f string, good bool) (text, canon string) {
	if !good {
		switch f {
		case "start_time", "end_time", "limit":
			return []string{"", "abc", "1.5", "1e3", "9223372036854775808", "-9223372036854775809", " 1", "1 ", "--1", "1,000"}[r.Intn(10)], ""
		case "descending", "local_only":
			return []string{"", "yes", "2", "tru", "TrUe", "on"}[r.Intn(6)], ""
		case "envelope_types":
			return []string{"", "log", "LOGS", "6", "-1", "LOG,GAUGE", "1.0"}[r.Intn(7)], ""
		}
	}
	switch f {
	case "start_time", "end_time", "limit":
		v := r.Int63() - r.Int63()
		if r.Intn(3) == 0 {
			v = []int64{0, 1, -1, 1000, 1001, 9223372036854775807, -9223372036854775808}[r.Intn(7)]
		}
		return strconv.FormatInt(v, 10), strconv.FormatInt(v, 10)
	case "descending", "local_only":
		t := []string{"true", "false", "1", "0", "t", "F", "TRUE", "False"}[r.Intn(8)]
		b, _ := strconv.ParseBool(t)
		return t, fmt.Sprint(b)
	case "envelope_types":
		k := r.Intn(6)
		n := logcache_v1.EnvelopeType(k).String()
		if r.Intn(4) == 0 {
			return strconv.Itoa(k), n
		}
		return n, n
	case "time", "start", "end":
		t := []string{"", "1500000000", "1500000000.123", "2017-07-14T02:40:00Z", "2017-07-14T02:40:00+01:00", "bogus"}[r.Intn(6)]
		return t, t
	case "step":
		t := []string{"", "1m", "15", "1.5s", "-1"}[r.Intn(5)]
		return t, t
	}
	t := []string{"", `up{source_id="a b"}`, "1+1", `sum(rate(x{source_id="p&q=r"}[5m]))`, "ü%20;#?/", "a\nb", "^x.*$", "'\"<>"}[r.Intn(8)]
	return t, t
}

var jsonName = map[string]string{"start_time": "startTime", "end_time": "endTime", "envelope_types": "envelopeTypes", "name_filter": "nameFilter", "local_only": "localOnly"}

func fields(route string) []string {
	return map[string][]string{"read": {"start_time", "end_time", "limit", "envelope_types", "descending", "name_filter"}, "meta": {"local_only"}, "query": {"query", "time"},
		"range": {"query", "start", "end", "step"}}[route]
}

func escape(r *rand.Rand, s string, style int) string {
	switch style {
	case 0:
		return url.PathEscape(s)
	case 1: // escape everything
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, "%%%02X", s[i])
		}
		return b.String()
	}
	return (&url.URL{Path: s}).EscapedPath()
}

// src picks a source and how its path is written.
func source(r *rand.Rand, class string) (src, path string, clean bool) {
	switch class {
	case "plain":
		src = []string{"app", "1-2_3.4~5", "8e0c2a1b-0000-4000-8000-000000000000", "read", "source_id"}[r.Intn(5)]
		return src, url.PathEscape(src), true
	case "slash":
		src = []string{"a/b", "a/b/c", "read/x", "meta/", "a/"}[r.Intn(5)]
		return src, escape(r, src, 2*r.Intn(2)), true
	case "escaped":
		src = []string{"a b", "c%2Fd", "x?y=z", "x#y", "a+b", "p%q", "q&r", "%", `"<>"`, "a;b", "100%25"}[r.Intn(11)]
		return src, escape(r, src, r.Intn(2)), true
	case "unicode":
		src = []string{"ü", "sömé thing", "日本", "a\u2028b"}[r.Intn(4)]
		return src, escape(r, src, r.Intn(2)), true
	case "colon":
		src = []string{"a:b", "a:b:c", "a:b/c", "x/y:z", "a:", "a::", "a::b"}[r.Intn(7)]
		return src, escape(r, src, r.Intn(3)), true
	case "unclean":
		src = []string{"a//b", "../meta", "a/../b", "./x", ":x", "a/:b", "/a", "a/./b", "..", "."}[r.Intn(10)]
		return src, escape(r, src, r.Intn(3)), false
	case "empty":
		return "", "", true
	}
	vt.Fatal("source class %s", class)
	return
}

type given struct {
	f, how string
}

type request struct {
	method, url string
	ev          R
}

// build makes the request a scenario asks for.
func build(r *rand.Rand, base, route, method, src string, ps []given, other bool) request {
	ev := R{"op": "request", "method": method, "route": route, "src": "", "clean": true, "down": false}
	path := map[string]string{"meta": "/api/v1/meta", "query": "/api/v1/query", "range": "/api/v1/query_range", "info": "/api/v1/info"}[route]
	switch route {
	case "read":
		s, p, c := source(r, src)
		ev["src"], ev["clean"] = s, c
		path = "/api/v1/read/" + p
		if s == "" && r.Intn(2) == 0 {
			path = "/api/v1/read"
		}
	case "none":
		path = []string{"/", "/api", "/api/v1", "/api/v1/reads/x", "/v1/read/x", "/api/v1/query/x", "/api/v1/meta/x", "/api/v1/query_ranges", "/api/v2/meta", "/api/v1/infos",
			"/logcache.v1.Egress/Read", "/api/v1/series", "/api/v1/ingress", "/API/v1/meta"}[r.Intn(14)]
	}
	var kv []string
	params := []R{}
	add := func(key string, vals []R, texts []string) {
		for _, t := range texts {
			kv = append(kv, url.QueryEscape(key)+"="+url.QueryEscape(t))
		}
		params = append(params, R{"key": key, "vals": vals})
	}
	for _, g := range ps {
		key := g.f
		if n := jsonName[g.f]; g.how == "json" && n != "" {
			key = n
		}
		var gs []bool
		switch g.how {
		case "good", "json":
			gs = []bool{true}
			if r.Intn(5) == 0 {
				gs = []bool{true, true}
			}
			if g.f == "envelope_types" {
				for i := r.Intn(4); i > 0; i-- {
					gs = append(gs, true)
				}
			}
		case "bad":
			gs = []bool{false}
		case "goodbad":
			gs = []bool{true, false}
		case "badgood":
			gs = []bool{false, true}
		}
		var vs []R
		var ts []string
		for _, ok := range gs {
			t, c := value(r, g.f, ok)
			vs = append(vs, R{"good": ok, "canon": c})
			ts = append(ts, t)
		}
		add(key, vs, ts)
	}
	if other {
		ks := []string{"unknown", "limits", "START_TIME", "x.y"}
		if route == "read" {
			ks = append(ks, "source_id", "sourceId", "source_id", "sourceId", "query")
		}
		k := ks[r.Intn(len(ks))]
		add(k, []R{{"good": true, "canon": "elsewhere"}}, []string{"elsewhere"})
	}
	// parameters of one name keep their order; how names mix does not matter
	byKey := map[string][]string{}
	for _, p := range kv {
		k := strings.SplitN(p, "=", 2)[0]
		byKey[k] = append(byKey[k], p)
	}
	r.Shuffle(len(kv), func(i, j int) { kv[i], kv[j] = kv[j], kv[i] })
	for i, p := range kv {
		k := strings.SplitN(p, "=", 2)[0]
		kv[i], byKey[k] = byKey[k][0], byKey[k][1:]
	}
	u := base + path
	if len(kv) > 0 {
		u += "?" + strings.Join(kv, "&")
	}
	ev["params"] = params
	ev["url"] = u
	return request{method, u, ev}
}

var (
	clients []*http.Client
	plainC  = &http.Client{Timeout: 10 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
)

func httpClient(pool *tls.Config, h2 bool) *http.Client {
	return &http.Client{
		Timeout:       60 * time.Second,
		Transport:     &http.Transport{TLSClientConfig: pool, ForceAttemptHTTP2: h2, MaxIdleConnsPerHost: 16},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	}
}

func do(ctx context.Context, e *vt.Episode, r *rand.Rand, q request) {
	req, err := http.NewRequest(q.method, q.url, nil)
	if err != nil {
		vt.Fatal("request %s: %s", q.url, err)
	}
	if q.method == "POST" || q.method == "PUT" {
		req, _ = http.NewRequest(q.method, q.url, strings.NewReader(`{"source_id":"x"}`))
		req.Header.Set("Content-Type", "application/json")
	}
	req.Header.Set("Grpc-Metadata-Ep", e.Ep)
	if r.Intn(4) == 0 {
		req.Header.Set("Accept", []string{"application/json", "text/html", "*/*", "application/x-protobuf"}[r.Intn(4)])
	}
	if ctx != nil {
		req = req.WithContext(ctx)
	}
	resp, err := clients[r.Intn(len(clients))].Do(req)
	if err != nil {
		if ctx == nil {
			e.Log(R{"op": "failed", "err": err.Error()})
		}
		return
	}
	defer resp.Body.Close()
	b, err := ioutil.ReadAll(resp.Body)
	if err != nil {
		if ctx == nil {
			e.Log(R{"op": "broken body", "err": err.Error()})
		}
		return
	}
	e.Log(reply(q.ev, resp, b))
}

func reply(ev R, resp *http.Response, b []byte) R {
	ct := resp.Header.Get("Content-Type")
	res := R{"op": "reply", "st": resp.StatusCode, "json": strings.HasPrefix(ct, "application/json"), "nl": bytes.HasSuffix(b, []byte("\n")), "doc": ""}
	route := vt.S(ev, "route")
	if resp.StatusCode == 200 {
		switch route {
		case "query", "range":
			res["doc"] = vtj.Doc(b)
		case "read", "meta":
			res["doc"] = R{"json": canon(b)}
		default:
			res["doc"] = string(b)
		}
		return res
	}
	var m map[string]interface{}
	if json.Unmarshal(b, &m) == nil {
		d := R{}
		for k, v := range m {
			switch x := v.(type) {
			case string:
				d[k] = x
			case float64:
				d[k] = int(x)
			case []interface{}:
				if len(x) > 0 {
					d[k] = "list"
				}
			default:
				d[k] = fmt.Sprint(v)
			}
		}
		res["doc"] = d
	}
	return res
}

// ---------------------------------------------------------------- gateways

func startGateway(addr string, pair vtx.Pair, opts ...gateway.GatewayOption) *gateway.Gateway {
	opts = append([]gateway.GatewayOption{gateway.WithGatewayLogCacheDialOpts(grpc.WithInsecure())}, opts...)
	g := gateway.NewGateway(addr, "127.0.0.1:0", pair.CertPath, pair.KeyPath, opts...)
	g.Start()
	return g
}

func ready(base string) {
	ok := vt.Eventually(30*time.Second, func() bool {
		resp, err := clients[0].Get(base + "/api/v1/info")
		if err != nil {
			return false
		}
		resp.Body.Close()
		return true
	})
	if !ok {
		vt.Fatal("gateway %s does not serve", base)
	}
}

type gw struct {
	base string
	info func(r *rand.Rand) string
}

func given_(o R) []given {
	var ps []given
	l, _ := o["params"].([]interface{})
	for _, x := range l {
		m := x.(map[string]interface{})
		ps = append(ps, given{vt.S(m, "f"), vt.S(m, "how")})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].f < ps[j].f })
	return ps
}

func scenario(name string, ops []R, live, dead string, info string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		o := ops[0]
		base := live
		x := &session{e: e, r: vt.Rand(name + "/answer"), ans: R{"op": "none"}, went: make(chan struct{}), gone: make(chan struct{})}
		abort := false
		for _, p := range ops[1:] {
			switch vt.S(p, "op") {
			case "down":
				base = dead
			case "abort":
				abort = true
				x.ans = p
			case "answer":
				x.ans = p
			}
		}
		q := build(r, base, vt.S(o, "route"), vt.S(o, "method"), vt.S(o, "src"), given_(o), vt.B(o, "other"))
		q.ev["down"] = base == dead
		q.ev["info"] = info
		srv.add(name, x)
		defer srv.del(name)
		e.Log(q.ev)
		if !abort {
			do(nil, e, r, q)
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() { defer close(done); do(ctx, e, r, q) }()
		select {
		case <-x.went:
		case <-done: // refused
			cancel()
			return
		case <-time.After(20 * time.Second):
			e.Log(R{"op": "never asked"})
			cancel()
			return
		}
		e.Log(R{"op": "abort"})
		cancel()
		select {
		case <-x.gone:
			e.Log(R{"op": "cancelled"})
		case <-time.After(10 * time.Second):
			e.Log(R{"op": "not cancelled"})
		}
		<-done
	}
}

// storm: many requests at once; each is an episode of its own.
func storm(base string, n int) {
	var wg sync.WaitGroup
	eps := make([]*vt.Episode, n)
	sem := make(chan struct{}, 64)
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("storm-%d", i)
		if vt.Only != "" && !strings.HasPrefix(vt.Only, "storm-") {
			return
		}
		e := &vt.Episode{Ep: name}
		eps[i] = e
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := vt.Rand(name)
			route := []string{"read", "read", "meta", "query", "range"}[r.Intn(5)]
			var ps []given
			for _, f := range fields(route) {
				if r.Intn(2) == 0 {
					how := "good"
					if r.Intn(12) == 0 && f != "query" && f != "name_filter" && f != "time" && f != "start" && f != "end" && f != "step" {
						how = "bad"
					}
					ps = append(ps, given{f, how})
				}
			}
			code := 0
			if r.Intn(3) == 0 {
				code = 1 + r.Intn(16)
			}
			q := build(r, base, route, "GET", []string{"plain", "slash", "escaped", "unicode"}[r.Intn(4)], ps, r.Intn(4) == 0)
			q.ev["info"] = ""
			x := &session{e: e, r: vt.Rand(name + "/answer"), ans: R{"op": "answer", "code": code}, big: r.Intn(40) == 0}
			srv.add(name, x)
			e.Log(q.ev)
			do(nil, e, r, q)
			srv.del(name)
		}()
	}
	wg.Wait()
	for _, e := range eps {
		if vt.Only == "" || vt.Only == e.Ep {
			vt.Emit(e)
		}
	}
}

func main() {
	vt.Open()
	dir := vtx.Dir()
	defer vtx.Remove(dir)
	ca := vtx.NewCA(dir, "ca")
	pair := ca.Issue("localhost", []string{"localhost", "log-cache"})
	cfg := &tls.Config{RootCAs: ca.Pool(), ServerName: "localhost"}
	clients = []*http.Client{httpClient(cfg, false), httpClient(cfg.Clone(), true)}

	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vt.Fatal("%s", err)
	}
	gs := grpc.NewServer()
	logcache_v1.RegisterEgressServer(gs, srv)
	logcache_v1.RegisterPromQLQuerierServer(gs, srv)
	go gs.Serve(lis)

	r := vt.Rand("main")
	ver := []string{"", "1.2.3", "2.0.0-rc.1+x"}[r.Intn(3)]
	up := []int64{0, 1, -1, 789, 1 << 40}[r.Intn(5)]
	info := fmt.Sprintf(`{"version":"%s","vm_uptime":"%d"}`+"\n", ver, up)
	live := startGateway(lis.Addr().String(), pair, gateway.WithGatewayVersion(ver), gateway.WithGatewayVMUptimeFn(func() int64 { return up }))
	ready("https://" + live.Addr())
	dead := startGateway(fmt.Sprintf("127.0.0.1:%d", vtx.FreePort()), pair, gateway.WithGatewayVersion(ver), gateway.WithGatewayVMUptimeFn(func() int64 { return up }))
	ready("https://" + dead.Addr())
	lb, db := "https://"+live.Addr(), "https://"+dead.Addr()

	if vt.Mode == "binary" {
		binary(ca, pair, dir)
		vtx.Remove(dir)
		vt.Close()
		return
	}
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		n := fmt.Sprintf("scn-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: scenario(n, s, lb, db, info)})
	}
	for i := 0; i < 4; i++ {
		ts = append(ts, vt.Task{Name: fmt.Sprintf("plain-%d", i), Run: func(e *vt.Episode) {
			resp, err := plainC.Get("http://" + live.Addr() + "/api/v1/meta")
			if err == nil {
				resp.Body.Close()
			}
			e.Log(R{"op": "plain", "refused": err != nil || resp.StatusCode >= 400})
		}})
	}
	vt.RunAll(ts, 8)
	storm(lb, int(vt.N))
	vtx.Remove(dir)
	vt.Close()
}

// ---------------------------------------------------------------- the built program

func binary(ca *vtx.CA, pair vtx.Pair, dir string) {
	bin := os.Getenv("VERIF_GATEWAY_BIN")
	other := vtx.NewCA(dir, "other")
	otherPair := other.Issue("other", []string{"localhost", "log-cache"})
	wrongName := ca.Issue("wrongname", []string{"localhost", "elsewhere"})
	serve := func(p vtx.Pair) string {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			vt.Fatal("%s", err)
		}
		s := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{p.TLS()}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: ca.Pool()})))
		logcache_v1.RegisterEgressServer(s, srv)
		logcache_v1.RegisterPromQLQuerierServer(s, srv)
		go s.Serve(l)
		return l.Addr().String()
	}
	run := func(name, upstream string, certs vtx.Pair, down bool) vt.Task {
		return vt.Task{Name: name, Run: func(e *vt.Episode) {
			addr := fmt.Sprintf("127.0.0.1:%d", vtx.FreePort())
			cmd := exec.Command(bin)
			cmd.Dir = filepath.Dir(bin)
			cmd.Env = []string{"ADDR=" + addr, "LOG_CACHE_ADDR=" + upstream, fmt.Sprintf("HEALTH_PORT=%d", vtx.FreePort()), "PROXY_CERT_PATH=" + pair.CertPath, "PROXY_KEY_PATH=" + pair.KeyPath,
				"CA_PATH=" + ca.Path, "CERT_PATH=" + certs.CertPath, "KEY_PATH=" + certs.KeyPath}
			if err := cmd.Start(); err != nil {
				vt.Fatal("%s", err)
			}
			defer func() { cmd.Process.Kill(); cmd.Wait() }()
			base := "https://" + addr
			ready(base)
			r := vt.Rand(name)
			for _, route := range []string{"read", "meta", "query", "range"} {
				x := &session{e: e, r: r, ans: R{"op": "answer", "code": 0}}
				srv.add(name, x)
				var ps []given
				for _, f := range fields(route) {
					ps = append(ps, given{f, "good"})
				}
				q := build(r, base, route, "GET", "slash", ps, true)
				q.ev["down"], q.ev["info"] = down, ""
				e.Log(q.ev)
				do(nil, e, r, q)
			}
			resp, err := clients[0].Get(base + "/api/v1/info")
			if err != nil {
				e.Log(R{"op": "failed", "err": err.Error()})
				return
			}
			b, _ := ioutil.ReadAll(resp.Body)
			resp.Body.Close()
			var m map[string]string
			json.Unmarshal(b, &m)
			n, err := strconv.ParseInt(m["vm_uptime"], 10, 64)
			e.Log(R{"op": "binfo", "version": m["version"], "uptime": err == nil && n > 0 && n < 1<<40})
		}}
	}
	vt.RunAll([]vt.Task{
		run("binary-good", serve(pair), pair, false),
		run("binary-other-ca", serve(otherPair), pair, true),
		run("binary-wrong-name", serve(wrongName), pair, true),
		run("binary-unknown-client", serve(pair), otherPair, true),
	}, 4)
}
