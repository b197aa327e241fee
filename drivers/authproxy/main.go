// Driver for the authenticating proxy, in front of the real gateway and a scripted gRPC cache.
package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/cfauthproxy"
	"code.cloudfoundry.org/log-cache/internal/gateway"
	lcpromql "code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtq"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtx"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

type R = vt.R

// ---------------------------------------------------------------- the world

type world struct {
	admins, bad map[string]bool
	grants      map[string]map[string]bool // token -> words
	rel         map[string][]string        // word -> words
	relnil      bool
	metafails   bool
	stored      map[string]int64
}

// scene is what an episode plays in.
type scene struct {
	mu    sync.Mutex
	e     *vt.Episode
	r     *rand.Rand
	w     *world
	word  map[string]string // word -> source id
	back  map[string]string
	tok   map[string]string // token -> header
	tback map[string]string
	marks int
	errs  bool // the cache may answer with an error
}

func (x *scene) w_(s string) string {
	if w, ok := x.back[s]; ok {
		return w
	}
	return "?" + s
}

func (x *scene) world() *world {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.w
}

func (x *scene) intn(n int) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.r.Intn(n)
}

// ---------------------------------------------------------------- the services consulted

type stack struct {
	mu    sync.Mutex
	x     *scene
	base  string
	c     *http.Client
	evil  bool
	front func(x *scene) // tell outside services about the world
}

func (s *stack) scene() *scene {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.x
}

func (s *stack) enter(x *scene) {
	s.mu.Lock()
	s.x = x
	s.mu.Unlock()
}

func (s *stack) Read(token string) (auth.Oauth2ClientContext, error) {
	x := s.scene()
	x.mu.Lock()
	defer x.mu.Unlock()
	t, ok := x.tback[token]
	if !ok || x.w.bad[t] {
		return auth.Oauth2ClientContext{}, errors.New("bad token")
	}
	return auth.Oauth2ClientContext{IsAdmin: x.w.admins[t], Token: token, ExpiresAt: time.Now().Add(time.Hour)}, nil
}

func (s *stack) IsAuthorized(id, token string) bool {
	x := s.scene()
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.w.grants[x.tback[token]][x.w_(id)]
}

func (s *stack) AvailableSourceIDs(token string) []string {
	x := s.scene()
	x.mu.Lock()
	defer x.mu.Unlock()
	var ids []string
	for w := range x.w.grants[x.tback[token]] {
		ids = append(ids, x.word[w])
	}
	if x.r.Intn(2) == 0 {
		ids = append(ids, "another")
	}
	return ids
}

func (s *stack) GetRelatedSourceIds(names []string, token string) map[string][]string {
	x := s.scene()
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.w.relnil {
		return nil
	}
	m := map[string][]string{}
	for _, n := range names {
		if vs, ok := x.w.rel[x.w_(n)]; ok {
			// room to append, as real lists have
			ids := make([]string, 0, len(vs)+x.r.Intn(4))
			for _, v := range vs {
				ids = append(ids, x.word[v])
			}
			m[n] = ids
		} else if x.r.Intn(3) == 0 {
			m[n] = nil
		}
	}
	return m
}

// ---------------------------------------------------------------- the cache

type cache struct{ s *stack }

func (c *cache) call(ctx context.Context, rpc string, args R) (string, error) {
	x := c.s.scene()
	id := 0
	if rpc != "Meta" {
		md, _ := metadata.FromIncomingContext(ctx)
		if v := md["req"]; len(v) > 0 {
			id, _ = strconv.Atoi(v[0])
		}
	}
	code := 0
	if (rpc == "Meta" && x.world().metafails) || (rpc != "Meta" && x.errs && x.intn(8) == 0) {
		code = []int{2, 5, 14, 3}[x.intn(4)]
	}
	mark := ""
	if code == 0 {
		x.mu.Lock()
		x.marks++
		mark = fmt.Sprintf("mk%dkm", x.marks)
		x.mu.Unlock()
	}
	x.e.Log(R{"op": "rpc", "id": id, "rpc": rpc, "args": args, "out": R{"code": code, "mark": mark}})
	if code != 0 {
		return "", status.Error(codes.Code(code), "no")
	}
	return mark, nil
}

func readRest(start, end, limit int64, types []string, desc bool, filter string) string {
	return fmt.Sprint(start, end, limit, types, desc, filter)
}

func (c *cache) Read(ctx context.Context, q *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	ts := []string{}
	for _, t := range q.GetEnvelopeTypes() {
		ts = append(ts, t.String())
	}
	m, err := c.call(ctx, "Read", R{"src": c.s.scene().w_(q.GetSourceId()), "rest": readRest(q.GetStartTime(), q.GetEndTime(), q.GetLimit(), ts, q.GetDescending(), q.GetNameFilter())})
	if err != nil {
		return nil, err
	}
	return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{{SourceId: m}}}}, nil
}

func (c *cache) Meta(ctx context.Context, q *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	_, err := c.call(ctx, "Meta", R{})
	if err != nil {
		return nil, err
	}
	x := c.s.scene()
	m := &logcache_v1.MetaResponse{Meta: map[string]*logcache_v1.MetaInfo{}}
	for w, n := range x.world().stored {
		m.Meta[x.word[w]] = &logcache_v1.MetaInfo{Count: n, Expired: 2 * n, OldestTimestamp: -n, NewestTimestamp: n + 5}
	}
	return m, nil
}

func (c *cache) InstantQuery(ctx context.Context, q *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	m, err := c.call(ctx, "InstantQuery", R{"q": c.s.scene().query(q.GetQuery()), "rest": q.GetTime()})
	if err != nil {
		return nil, err
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{
		Samples: []*logcache_v1.PromQL_Sample{{Metric: map[string]string{"m": m}, Point: &logcache_v1.PromQL_Point{Time: "1.000", Value: 1}}}}}}, nil
}

func (c *cache) RangeQuery(ctx context.Context, q *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	m, err := c.call(ctx, "RangeQuery", R{"q": c.s.scene().query(q.GetQuery()), "rest": q.GetStart() + "," + q.GetEnd() + "," + q.GetStep()})
	if err != nil {
		return nil, err
	}
	return &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{
		Series: []*logcache_v1.PromQL_Series{{Metric: map[string]string{"m": m}, Points: []*logcache_v1.PromQL_Point{{Time: "1.000", Value: 1}}}}}}}, nil
}

// ---------------------------------------------------------------- queries

func (x *scene) query(text string) R { return (&vtq.Words{Word: x.word, Back: x.back}).Parse(text) }

func (x *scene) render(r *rand.Rand, sels [][]R, parses bool) string {
	return (&vtq.Words{Word: x.word, Back: x.back}).Render(r, sels, parses)
}

// ---------------------------------------------------------------- requests

type request struct {
	method, url, token string
	body               string
	form               bool
	override           bool
	rec                R
}

func rnd(r *rand.Rand, vs ...string) string { return vs[r.Intn(len(vs))] }

func (x *scene) build(r *rand.Rand, base string, in R) request {
	ep, method := vt.S(in, "ep"), vt.S(in, "method")
	q := request{method: method, token: vt.S(in, "token"), rec: R{"ep": ep, "token": in["token"], "method": method, "clean": in["clean"], "src": "", "rest": "", "alts": []R{}}}
	var ps []string
	add := func(k, v string) { ps = append(ps, url.QueryEscape(k)+"="+url.QueryEscape(v)) }
	path := "/api/v1/" + ep
	switch ep {
	case "read":
		w := vt.S(in, "src")
		s := x.word[w]
		p := url.PathEscape(s)
		if r.Intn(4) == 0 {
			p = ""
			for i := 0; i < len(s); i++ {
				p += fmt.Sprintf("%%%02X", s[i])
			}
		}
		if !vt.B(in, "clean") {
			p = rnd(r, "x/../", "/", "./", "%2e%2e/read/", "..%2Fread%2F", "x/%2e%2e/", "../read/") + p
		}
		path = "/api/v1/read/" + p
		var st, en, li int64
		ts := []string{}
		d, nf := false, ""
		if r.Intn(2) == 0 {
			st = r.Int63()
			add("start_time", fmt.Sprint(st))
		}
		if r.Intn(2) == 0 {
			en = r.Int63()
			add("end_time", fmt.Sprint(en))
		}
		if r.Intn(2) == 0 {
			li = r.Int63n(1000)
			add("limit", fmt.Sprint(li))
		}
		if r.Intn(2) == 0 {
			ts = append(ts, "LOG", "TIMER")
			add("envelope_types", "LOG")
			add("envelope_types", "TIMER")
		}
		if r.Intn(2) == 0 {
			d = true
			add("descending", "true")
		}
		if r.Intn(3) == 0 {
			nf = rnd(r, "a.*&b", "^x$", "ü %")
			add("name_filter", nf)
		}
		if r.Intn(3) == 0 {
			add(rnd(r, "source_id", "sourceId", "sourceID"), x.word[rnd(r, "a", "b", "n")])
			if strings.HasPrefix(ps[len(ps)-1], "sourceID") {
				ps = ps[:len(ps)-1]
			}
		}
		q.rec["src"], q.rec["rest"] = w, readRest(st, en, li, ts, d, nf)
	case "query", "range":
		if ep == "range" {
			path = "/api/v1/query_range"
		}
		var alts []R
		for _, a := range in["alts"].([]interface{}) {
			m := a.(map[string]interface{})
			var sels [][]R
			for _, s := range m["sels"].([]interface{}) {
				sel := []R{}
				for _, k := range s.([]interface{}) {
					sel = append(sel, k.(map[string]interface{}))
				}
				sels = append(sels, sel)
			}
			t := x.render(r, sels, m["parses"].(bool))
			add("query", t)
			alts = append(alts, x.query(t))
		}
		q.rec["alts"] = alts
		tm := func(k string) string {
			v := rnd(r, "", "1500000000", "1500000000.123", "2017-07-14T02:40:00+01:00", "bogus & co", "1m")
			if v != "" {
				add(k, v)
			}
			return v
		}
		if ep == "query" {
			q.rec["rest"] = tm("time")
		} else {
			s, e, p := tm("start"), tm("end"), tm("step")
			q.rec["rest"] = s + "," + e + "," + p
		}
		r.Shuffle(len(ps), func(i, j int) {
			if !strings.HasPrefix(ps[i], "query=") || !strings.HasPrefix(ps[j], "query=") {
				ps[i], ps[j] = ps[j], ps[i]
			}
		})
	case "meta":
		if r.Intn(3) == 0 {
			add("local_only", rnd(r, "true", "false"))
		}
	case "other":
		path = rnd(r, "/", "/api/v1", "/api/v1/reads", "/api/v1/query/", "/api/v1/metax", "/logcache.v1.Egress/Read", "/api/v1/query_range/x", "/API/v1/meta", "/api/v1/series", "/metrics", "/debug/pprof/",
			"/api/v1/ingress", "/api/v2/read/"+url.PathEscape(x.word["a"]), "/api/v1/info/x", "/v1/read/"+url.PathEscape(x.word["a"]))
		add("query", `m{source_id="`+x.word["a"]+`"}`)
	}
	if r.Intn(5) == 0 {
		add(rnd(r, "foo", "Query", "token"), "x;y&z")
	}
	q.url = base + path
	if len(ps) > 0 {
		q.url += "?" + strings.Join(ps, "&")
	}
	if method != "GET" {
		q.method = rnd(r, "POST", "POST", "POST", "PUT", "DELETE", "PATCH", "OPTIONS")
		q.form = q.method == "POST" && r.Intn(4) > 0
		q.override = r.Intn(2) == 0
		f := url.Values{}
		f.Set("query", `m{source_id="`+x.word[rnd(r, "a", "b")]+`"}`)
		f.Set("source_id", x.word[rnd(r, "a", "b")])
		f.Set("limit", "7")
		q.body = f.Encode()
	}
	return q
}

var markRE = regexp.MustCompile(`mk\d+km`)

// do sends a request and logs what came back.
func (s *stack) do(x *scene, id int, q request) {
	x.e.Log(R{"op": "request", "id": id, "r": q.rec})
	hr, err := http.NewRequest(q.method, q.url, strings.NewReader(q.body))
	if err != nil {
		vt.Fatal("%s", err)
	}
	if q.body == "" {
		hr.Body, hr.ContentLength = nil, 0
	}
	if q.form {
		hr.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	if q.override {
		hr.Header.Set("X-HTTP-Method-Override", "GET")
	}
	if q.token != "" {
		hr.Header.Set("Authorization", x.tok[q.token])
	}
	hr.Header.Set("Grpc-Metadata-Req", fmt.Sprint(id))
	res := R{"op": "reply", "id": id, "st": 0, "mark": "", "ids": []R{}}
	resp, err := s.c.Do(hr)
	if err != nil {
		res["error"] = err.Error()
		x.e.Log(res)
		return
	}
	b, err := ioutil.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		res["error"] = err.Error()
		x.e.Log(res)
		return
	}
	res["st"] = resp.StatusCode
	marks := map[string]bool{}
	for _, m := range markRE.FindAllString(string(b), -1) {
		marks[m] = true
	}
	var ms []string
	for m := range marks {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	res["mark"] = strings.Join(ms, "+")
	var doc struct {
		Version *string `json:"version"`
		Meta    map[string]struct {
			Count           string `json:"count"`
			Expired         string `json:"expired"`
			OldestTimestamp string `json:"oldestTimestamp"`
			Oldest          string `json:"oldest_timestamp"`
			NewestTimestamp string `json:"newestTimestamp"`
			Newest          string `json:"newest_timestamp"`
		} `json:"meta"`
	}
	if json.NewDecoder(bytes.NewReader(b)).Decode(&doc) == nil {
		if doc.Version != nil {
			res["mark"] = "info"
		}
		ids := []R{}
		for k, v := range doc.Meta {
			n, _ := strconv.Atoi(v.Count)
			if v.Expired != fmt.Sprint(2*n) || v.OldestTimestamp+v.Oldest != fmt.Sprint(-n) || v.NewestTimestamp+v.Newest != fmt.Sprint(n+5) {
				n = -1
			}
			ids = append(ids, R{"id": x.w_(k), "is": n})
		}
		res["ids"] = ids
	}
	if res["mark"] == "" && len(res["ids"].([]R)) == 0 {
		res["body"] = string(b[:min(len(b), 100)])
	}
	x.e.Log(res)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---------------------------------------------------------------- episodes

func strs(v interface{}) []string {
	out := []string{}
	if l, ok := v.([]interface{}); ok {
		for _, s := range l {
			out = append(out, s.(string))
		}
	}
	return out
}

func set(ss []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

// enterWorld: a deaf proxy knows of nothing that the controller grants.
func (x *scene) enterWorld(w *world, evil, deaf bool) {
	x.mu.Lock()
	x.w = w
	x.mu.Unlock()
	gs, rel, st := []R{}, []R{}, []R{}
	for t, m := range w.grants {
		for s := range m {
			if deaf {
				continue
			}
			gs = append(gs, R{"t": t, "s": s})
		}
	}
	for k, v := range w.rel {
		if deaf {
			continue
		}
		if v == nil {
			v = []string{}
		}
		rel = append(rel, R{"k": k, "v": v})
	}
	for k, v := range w.stored {
		st = append(st, R{"k": k, "v": v})
	}
	keys := func(m map[string]bool) []string {
		out := []string{}
		for k := range m {
			out = append(out, k)
		}
		return out
	}
	x.e.Log(R{"op": "world", "w": R{"admins": keys(w.admins), "bad": keys(w.bad), "grants": gs, "rel": rel, "relnil": w.relnil, "impostor": evil, "stored": st}})
}

func worldOf(o R) *world {
	w := &world{admins: set(strs(o["admins"])), bad: set(strs(o["bad"])), grants: map[string]map[string]bool{}, rel: map[string][]string{}, relnil: vt.B(o, "relnil"), metafails: vt.B(o, "metafails"), stored: map[string]int64{}}
	for _, g := range o["grants"].([]interface{}) {
		m := g.(map[string]interface{})
		t := vt.S(m, "t")
		if w.grants[t] == nil {
			w.grants[t] = map[string]bool{}
		}
		w.grants[t][vt.S(m, "s")] = true
	}
	for k, v := range o["rel"].(map[string]interface{}) {
		w.rel[k] = strs(v)
	}
	for k := range o["stored"].(map[string]interface{}) {
		w.stored[k] = int64(vt.I(o["stored"].(map[string]interface{}), k))
	}
	return w
}

var odd = []string{"8e0c2a1b-1111-4000-8000-00000000000%d", "app.%d", "source id %d", "ü%d", "p/q%d", "%%%d", "a\"b%d", "doppler-%d", "%d", "x%d=y&z"}

func newScene(e *vt.Episode, words []string, users []string) *scene {
	x := &scene{e: e, r: vt.Rand(e.Ep + "/w"), word: map[string]string{}, back: map[string]string{}, tok: map[string]string{}, tback: map[string]string{}, errs: true}
	for i, w := range words {
		s := fmt.Sprintf(odd[x.r.Intn(len(odd))], i)
		if x.r.Intn(3) == 0 && i > 0 { // sources whose names contain each other
			s = x.word[words[i-1]] + rndS(x.r)
		}
		x.word[w], x.back[s] = s, w
	}
	// how a matcher says no
	x.back["!="], x.back["!~"] = "!=", "!~"
	for i, t := range users {
		h := rnd(x.r, "bearer ", "Bearer ", "") + fmt.Sprintf("tok-%s-%d", e.Ep, i)
		x.tok[t], x.tback[h] = h, t
	}
	return x
}

func rndS(r *rand.Rand) string { return rnd(r, "x", ".", " ", "-1", "/z") }

func scenario(name string, ops []R, pools map[bool]chan *stack) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		evil := vt.B(ops[0]["w"].(map[string]interface{}), "impostor")
		s := <-pools[evil]
		defer func() { pools[evil] <- s }()
		x := newScene(e, []string{"a", "b", "n"}, []string{"u", "adm", "bad"})
		s.enter(x)
		id := 0
		for _, o := range ops {
			switch vt.S(o, "op") {
			case "world":
				x.enterWorld(worldOf(o["w"].(map[string]interface{})), evil, false)
				if s.front != nil {
					s.front(x)
				}
			case "request":
				id++
				s.do(x, id, x.build(r, s.base, o["r"].(map[string]interface{})))
			}
		}
	}
}

func subset(r *rand.Rand, ws []string, of int) []string {
	out := []string{}
	for _, w := range ws {
		if r.Intn(of) == 0 {
			out = append(out, w)
		}
	}
	return out
}

// storm: many requests of many users at once.
func storm(name string, pools map[bool]chan *stack, k int, evil, deaf bool) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		s := <-pools[evil]
		defer func() { pools[evil] <- s }()
		words := []string{"a", "b", "c", "d", "n", "m"}
		users := []string{"u", "v", "w", "adm", "bad"}
		x := newScene(e, words, users)
		s.enter(x)
		w := &world{admins: set([]string{"adm"}), bad: set([]string{"bad"}), grants: map[string]map[string]bool{}, rel: map[string][]string{}, stored: map[string]int64{}}
		for _, u := range []string{"u", "v", "w"} {
			w.grants[u] = set(subset(r, words, 2))
		}
		for i, n := range words {
			if r.Intn(2) == 0 {
				w.rel[n] = subset(r, words[:4], 2)
			}
			if r.Intn(3) > 0 {
				w.stored[n] = int64(i + 1)
			}
		}
		x.enterWorld(w, evil, deaf)
		if s.front != nil {
			s.front(x)
		}
		var wg sync.WaitGroup
		for id := 1; id <= k; id++ {
			id := id
			in := R{"ep": rnd(r, "read", "read", "query", "query", "query", "range", "range", "meta", "info"), "token": rnd(r, "u", "v", "w", "u", "v", "w", "adm", "bad", ""), "method": "GET", "clean": true, "src": rnd(r, words...)}
			sels := []interface{}{}
			for i := 1 + r.Intn(3); i > 0; i-- {
				var vs []interface{}
				for _, v := range subset(r, words, 3) {
					vs = append(vs, v)
				}
				if vs == nil {
					vs = append(vs, rnd(r, words...))
				}
				sel := []interface{}{R{"kind": rnd(r, "is", "is", "is", "is", "not"), "vals": vs}}
				if r.Intn(4) == 0 {
					sel = append(sel, R{"kind": "is", "vals": []interface{}{rnd(r, words...)}})
				}
				sels = append(sels, sel)
			}
			in["alts"] = []interface{}{R{"parses": r.Intn(10) > 0, "sels": sels}}
			q := x.build(r, s.base, in)
			wg.Add(1)
			go func() {
				defer wg.Done()
				s.do(x, id, q)
			}()
		}
		wg.Wait()
	}
}

// ---------------------------------------------------------------- setting up

func serveCache(s *stack) string {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vt.Fatal("%s", err)
	}
	gs := grpc.NewServer()
	c := &cache{s}
	logcache_v1.RegisterEgressServer(gs, c)
	logcache_v1.RegisterPromQLQuerierServer(gs, c)
	go gs.Serve(lis)
	return lis.Addr().String()
}

func waitTLS(addr string, c *http.Client) {
	ok := vt.Eventually(30*time.Second, func() bool {
		resp, err := c.Get("https://" + addr + "/api/v1/info")
		if err != nil {
			return false
		}
		resp.Body.Close()
		return true
	})
	if !ok {
		vt.Fatal("%s does not serve", addr)
	}
}

func httpClient(cfg *tls.Config, h2 bool) *http.Client {
	t := &http.Transport{TLSClientConfig: cfg, MaxIdleConnsPerHost: 32, ForceAttemptHTTP2: h2}
	if !h2 {
		t.TLSNextProto = map[string]func(string, *tls.Conn) http.RoundTripper{}
	}
	return &http.Client{Transport: t, Timeout: 30 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
}

var gwMu sync.Mutex

// startGateway starts gateways one after another: each sets the error handler of the whole process.
func startGateway(s *stack, pair vtx.Pair) string {
	gwMu.Lock()
	defer gwMu.Unlock()
	g := gateway.NewGateway(serveCache(s), "127.0.0.1:0", pair.CertPath, pair.KeyPath, gateway.WithGatewayLogCacheDialOpts(grpc.WithInsecure()), gateway.WithGatewayVersion("2.3.4"))
	g.Start()
	waitTLS(g.Addr(), httpClient(&tls.Config{InsecureSkipVerify: true}, false))
	return g.Addr()
}

func newStack(i int, evil bool, pair, gwPair vtx.Pair, ca *vtx.CA) *stack {
	s := &stack{evil: evil}
	s.c = httpClient(&tls.Config{RootCAs: ca.Pool(), ServerName: "localhost"}, i%2 == 1)
	gurl := "https://" + startGateway(s, gwPair)
	mc := &http.Client{Timeout: 20 * time.Second, Transport: cfauthproxy.NewTransportWithRootCA(ca.Pool())}
	mw := auth.NewCFAuthMiddlewareProvider(s, s, client.NewClient(gurl, client.WithHTTPClient(mc)), lcpromql.ExtractSourceIds, s)
	p := cfauthproxy.NewCFAuthProxy(gurl, "127.0.0.1:0", pair.CertPath, pair.KeyPath, ca.Pool(), cfauthproxy.WithAuthMiddleware(mw.Middleware))
	p.Start()
	s.base = "https://" + p.Addr()
	waitTLS(p.Addr(), s.c)
	return s
}

// weak: clients that do not speak TLS 1.2 or later.
func weak(s *stack, ca *vtx.CA) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		for _, v := range []uint16{tls.VersionTLS10, tls.VersionTLS11} {
			c := httpClient(&tls.Config{RootCAs: ca.Pool(), ServerName: "localhost", MinVersion: v, MaxVersion: v}, false)
			resp, err := c.Get(s.base + "/api/v1/info")
			if err == nil {
				resp.Body.Close()
			}
			e.Log(R{"op": "weak", "refused": err != nil})
		}
		resp, err := http.Get("http://" + strings.TrimPrefix(s.base, "https://") + "/api/v1/info")
		if err == nil {
			resp.Body.Close()
		}
		e.Log(R{"op": "weak", "refused": err != nil || resp.StatusCode >= 400})
	}
}

func main() {
	vt.Open()
	dir := vtx.Dir()
	defer vtx.Remove(dir)
	ca := vtx.NewCA(dir, "ca")
	other := vtx.NewCA(dir, "other")
	pair := ca.Issue("localhost", []string{"localhost"})
	evilPair := other.Issue("evil", []string{"localhost"})
	if vt.Mode == "program" {
		program(ca, other, pair, dir)
		vtx.Remove(dir)
		vt.Close()
		return
	}
	pools := map[bool]chan *stack{false: make(chan *stack, 8), true: make(chan *stack, 8)}
	for i := 0; i < 6; i++ {
		pools[false] <- newStack(i, false, pair, pair, ca)
	}
	for i := 0; i < 2; i++ {
		pools[true] <- newStack(i, true, pair, evilPair, ca)
	}
	var ts []vt.Task
	for i, sc := range vt.Scenarios() {
		n := fmt.Sprintf("scn-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: scenario(n, sc, pools)})
	}
	for i := 0; i < int(vt.N); i++ {
		n := fmt.Sprintf("storm-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: storm(n, pools, 40, false, false)})
	}
	s := <-pools[false]
	pools[false] <- s
	ts = append(ts, vt.Task{Name: "weak", Run: weak(s, ca)})
	vt.RunAll(ts, 8)
	vtx.Remove(dir)
	vt.Close()
}
