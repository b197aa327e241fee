// Driver for the cloud controller's client: a controller whose lists change, come in
// pages and fail, calls one after another and concurrently.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	mrand "math/rand"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
)

type R = vt.R

type noMetrics struct{}

func (noMetrics) NewGauge(string, ...metrics.MetricOption) metrics.Gauge { return &vt.Metric{} }

type app struct{ name, guid string }

type body struct {
	io.Reader
	c      *controller
	closed bool
}

func (b *body) Close() error {
	b.c.mu.Lock()
	if !b.closed {
		b.closed = true
		b.c.held--
	}
	b.c.mu.Unlock()
	return nil
}

type failing struct{ r io.Reader }

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

// controller is the fake cloud controller.
type controller struct {
	e        *vt.Episode
	mu       sync.Mutex
	r        *mrand.Rand
	start    time.Time
	scheme   string
	host     string
	apps     map[string][]app // by token
	services map[string][]string
	mode     string
	reqs     int
	held     int
	linger   time.Duration
	size     int
	snaps    map[string][]string // what a paged list is a list of
}

func (c *controller) now() int { return int(time.Since(c.start) / time.Millisecond) }

func (c *controller) Do(q *http.Request) (*http.Response, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reqs++
	r := c.reqs
	tok := q.Header.Get("Authorization")
	v := q.URL.Query()
	list, names := "", []string{}
	switch q.URL.Path {
	case "/v3/apps":
		list = "apps"
		if _, ok := v["names"]; ok {
			list = "named"
			names = strings.Split(v.Get("names"), ",")
			sort.Strings(names)
		}
	case "/v3/service_instances":
		list = "services"
	}
	page := 1
	if s := v.Get("page"); s != "" {
		page, _ = strconv.Atoi(s)
	}
	proper := q.Method == "GET" && q.URL.Scheme == c.scheme && q.URL.Host == c.host && q.Body == nil && len(q.Header["Authorization"]) == 1
	for k, x := range v {
		switch k {
		case "page", "per_page", "order_by", "cursor":
		case "names":
			proper = proper && len(x) == 1
		default:
			proper = false
		}
	}
	// the pages of one reading belong together: the list is taken when its first page is asked for
	cur := v.Get("cursor")
	if page > 1 && (cur == "" || c.snaps[cur] == nil) {
		proper = false
	}
	c.e.Log(R{"op": "request", "r": r, "tok": tok, "list": list, "page": page, "names": strings.Join(names, ","), "proper": proper})
	if page == 1 {
		cur = fmt.Sprintf("%d,%d", r, c.r.Intn(1000))
		var s []string
		switch list {
		case "apps", "named":
			for _, a := range c.apps[tok] {
				in := list == "apps"
				for _, n := range names {
					in = in || n == a.name
				}
				if in {
					s = append(s, a.name+"\x00"+a.guid)
				}
			}
		case "services":
			for _, g := range c.services[tok] {
				s = append(s, "service "+g+"\x00"+g)
			}
		}
		c.snaps[cur] = append([]string{}, s...)
	}
	if c.linger > 0 {
		d := time.Duration(c.r.Int63n(int64(c.linger)))
		c.mu.Unlock()
		time.Sleep(d)
		c.mu.Lock()
	}
	all := c.snaps[cur]
	from, to := (page-1)*c.size, page*c.size
	if from > len(all) {
		from = len(all)
	}
	if to > len(all) {
		to = len(all)
	}
	next := to < len(all)
	if !next && page < 3 && c.r.Intn(8) == 0 {
		next = true // an empty page at the end
	}
	items := []interface{}{}
	resources := []R{}
	for _, x := range all[from:to] {
		p := strings.SplitN(x, "\x00", 2)
		res := R{"guid": p[1], "name": p[0], "state": "STARTED", "links": R{"self": R{"href": "https://x/" + p[1]}}}
		resources = append(resources, res)
		if list == "named" {
			items = append(items, []string{p[0], p[1]})
		} else {
			items = append(items, p[1])
		}
	}
	doc := R{"resources": resources, "pagination": R{"total_results": len(all), "next": nil, "first": R{"href": "https://other/v3/apps?page=1"}}}
	if next {
		nv := url.Values{"page": {fmt.Sprint(page + 1)}, "cursor": {cur}, "per_page": {fmt.Sprint(c.size)}}
		if list == "named" {
			nv.Set("names", v.Get("names"))
		}
		host := []string{"https://api.internal:9024", "http://10.0.0.1", c.scheme + "://" + c.host}[c.r.Intn(3)]
		doc["pagination"].(R)["next"] = R{"href": host + q.URL.Path + "?" + nv.Encode()}
	}
	b, _ := json.Marshal(doc)
	fail := (c.mode == "badapps" && list == "apps" || c.mode == "badservices" && list == "services" || c.mode == "badnamed" && list == "named") &&
		(!next || c.r.Intn(2) == 0)
	log := func(ok bool) {
		c.e.Log(R{"op": "answer", "r": r, "items": items, "next": next, "ok": ok, "t": c.now()})
	}
	if !fail {
		log(true)
		c.held++
		return &http.Response{StatusCode: 200, Body: &body{Reader: bytes.NewReader(b), c: c}, Header: http.Header{}, Request: q}, nil
	}
	log(false)
	status := 200
	var rd io.Reader = bytes.NewReader(b)
	switch c.r.Intn(9) {
	case 0, 1:
		return nil, errors.New("connection refused")
	case 2, 3:
		status = []int{500, 401, 403, 404, 503, 201, 204, 302, 206, 429}[c.r.Intn(10)]
	case 4:
		rd = strings.NewReader("<html>")
	case 5:
		rd = bytes.NewReader(b[:len(b)-1-c.r.Intn(len(b)-1)])
	case 6:
		rd = failing{bytes.NewReader(b[:len(b)-1])}
	case 7:
		rd = strings.NewReader([]string{`{"resources":"x"}`, `{"resources":[1]}`, `[]`, `{"resources":[{"guid":5}]}`, ""}[c.r.Intn(5)])
	default:
		doc["pagination"] = R{"next": R{"href": []string{"://x", "%zz", "http://[::1"}[c.r.Intn(3)]}}
		b, _ := json.Marshal(doc)
		rd = bytes.NewReader(b)
	}
	c.held++
	return &http.Response{StatusCode: status, Body: &body{Reader: rd, c: c}, Header: http.Header{}, Request: q}, nil
}

// ---------------------------------------------------------------- episodes

type world struct {
	e     *vt.Episode
	c     *controller
	cl    *auth.CAPIClient
	p     time.Duration
	prune time.Duration
	mu    sync.Mutex
	n     int
}

func newWorld(e *vt.Episode, r *mrand.Rand, p time.Duration) *world {
	c := &controller{e: e, r: mrand.New(mrand.NewSource(r.Int63())), start: time.Now(), scheme: []string{"http", "https"}[r.Intn(2)],
		host: []string{"api.example.com", "api.example.com:8443"}[r.Intn(2)], apps: map[string][]app{}, services: map[string][]string{}, mode: "ok",
		size: 1 + r.Intn(4), snaps: map[string][]string{}}
	prune := time.Hour
	if p < time.Minute && r.Intn(2) == 0 {
		prune = 20 * time.Millisecond
	}
	e.Cfg = R{"p": int(p / time.Millisecond), "prune": 100}
	return &world{e: e, c: c, p: p, prune: prune, cl: auth.NewCAPIClient(c.scheme+"://"+c.host, c, noMetrics{}, log.New(ioutil.Discard, "", 0),
		auth.WithCacheExpirationInterval(p), auth.WithTokenPruningInterval(prune))}
}

func (w *world) begin(kind, tok, src string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	w.e.Log(R{"op": "call", "i": w.n, "kind": kind, "tok": tok, "src": src, "t": w.c.now()})
	return w.n
}

func (w *world) auth(tok, src string) {
	i := w.begin("auth", tok, src)
	ok := w.cl.IsAuthorized(src, tok)
	w.e.Log(R{"op": "verdict", "i": i, "ok": ok})
}

func (w *world) avail(tok string) {
	i := w.begin("avail", tok, "")
	ids := append([]string{}, w.cl.AvailableSourceIDs(tok)...)
	w.e.Log(R{"op": "available", "i": i, "ids": ids})
}

func (w *world) related(tok string, names []string) {
	s := append([]string{}, names...)
	sort.Strings(s)
	i := w.begin("related", tok, strings.Join(s, ","))
	m := w.cl.GetRelatedSourceIds(append([]string(nil), names...), tok)
	pairs := [][]interface{}{}
	for k, v := range m {
		pairs = append(pairs, []interface{}{k, append([]string{}, v...)})
	}
	w.e.Log(R{"op": "related", "i": i, "map": pairs, "nil": m == nil, "none": len(names) == 0})
}

// grant lets the token's controller list the source, as an application or a service.
func (w *world) grant(tok, src, name string, service bool) {
	w.c.mu.Lock()
	defer w.c.mu.Unlock()
	if service {
		w.c.services[tok] = insert(w.c.r, w.c.services[tok], src)
	} else {
		i := w.c.r.Intn(len(w.c.apps[tok]) + 1)
		w.c.apps[tok] = append(append(append([]app{}, w.c.apps[tok][:i]...), app{name, src}), w.c.apps[tok][i:]...)
	}
}

func insert(r *mrand.Rand, s []string, x string) []string {
	i := r.Intn(len(s) + 1)
	return append(append(append([]string{}, s[:i]...), x), s[i:]...)
}

func (w *world) revoke(tok, src string) {
	w.c.mu.Lock()
	defer w.c.mu.Unlock()
	var a []app
	for _, x := range w.c.apps[tok] {
		if x.guid != src {
			a = append(a, x)
		}
	}
	w.c.apps[tok] = a
	var s []string
	for _, x := range w.c.services[tok] {
		if x != src {
			s = append(s, x)
		}
	}
	w.c.services[tok] = s
}

func (w *world) mode(m string) {
	w.c.mu.Lock()
	w.c.mode = m
	w.c.mu.Unlock()
}

func (w *world) wait() { time.Sleep(w.p + w.p/2 + 10*time.Millisecond) }

// size says how many tokens are remembered, once those that are too old had time to go.
func (w *world) size() {
	if w.prune > time.Minute {
		return // nothing is dropped meanwhile: too old a list must not count all the same
	}
	time.Sleep(2*w.prune + 50*time.Millisecond)
	w.e.Log(R{"op": "size", "n": w.cl.TokenCacheSize(), "t": w.c.now()})
}

func (w *world) end() {
	w.c.mu.Lock()
	h := w.c.held
	w.c.mu.Unlock()
	w.e.Log(R{"op": "end", "held": h})
}

var names = []string{"web", "worker", "my app", "x&y=z", "ünï", "web", "a+b"}

func fill(w *world, r *mrand.Rand, toks []string) {
	for _, t := range toks {
		for n := r.Intn(7); n > 0; n-- {
			w.grant(t, fmt.Sprintf("extra-%s-%d", t, n), names[r.Intn(len(names))], r.Intn(3) == 0)
		}
	}
}

func scripted(scn []R, r *mrand.Rand) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		p := time.Hour
		for _, o := range scn {
			if vt.S(o, "o") == "wait" {
				p = 200 * time.Millisecond
			}
		}
		w := newWorld(e, r, p)
		fill(w, r, []string{"t", "u"})
		for _, o := range scn {
			t, s := vt.S(o, "tok"), vt.S(o, "src")
			switch vt.S(o, "o") {
			case "auth":
				w.auth(t, s)
			case "avail":
				w.avail(t)
			case "grant":
				w.grant(t, s, "web", r.Intn(2) == 0)
			case "revoke":
				w.revoke(t, s)
			case "mode":
				w.mode(t)
			case "wait":
				w.wait()
			}
		}
		if p < time.Minute {
			w.size()
		}
		w.end()
	}
}

func some(r *mrand.Rand) []string {
	var s []string
	for n := r.Intn(4); n > 0; n-- {
		x := append(append([]string{}, names...), "nobody")[r.Intn(len(names)+1)]
		dup := false
		for _, y := range s {
			dup = dup || x == y
		}
		if !dup {
			s = append(s, x)
		}
	}
	return s
}

func random(r *mrand.Rand) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		p := []time.Duration{time.Hour, time.Hour, 200 * time.Millisecond}[r.Intn(3)]
		w := newWorld(e, r, p)
		toks := []string{"bearer t", "u", "bearer t "}[:1+r.Intn(3)]
		srcs := []string{"s-1", "s-2", "s-1 ", "S-1", ""}[:2+r.Intn(4)]
		fill(w, r, toks)
		for n := 8 + r.Intn(16); n > 0; n-- {
			t, s := toks[r.Intn(len(toks))], srcs[r.Intn(len(srcs))]
			switch r.Intn(12) {
			case 0:
				w.grant(t, s, names[r.Intn(len(names))], r.Intn(2) == 0)
			case 1:
				w.revoke(t, s)
			case 2:
				w.mode([]string{"ok", "ok", "badapps", "badservices", "badnamed"}[r.Intn(5)])
			case 3:
				w.avail(t)
			case 4, 5:
				w.related(t, some(r))
			case 6:
				if p < time.Minute {
					if r.Intn(2) == 0 {
						w.wait()
					} else {
						w.size()
					}
				}
			default:
				w.auth(t, s)
			}
		}
		w.end()
	}
}

func concurrent(r *mrand.Rand) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		w := newWorld(e, r, time.Hour)
		w.c.linger = 2 * time.Millisecond
		toks := []string{"t", "u"}[:1+r.Intn(2)]
		fill(w, r, toks)
		for _, t := range toks {
			w.grant(t, "s-1", "web", false)
		}
		for k := 0; k < 2; k++ {
			var wg sync.WaitGroup
			for i := 0; i < 3; i++ {
				t, s := toks[r.Intn(len(toks))], []string{"s-1", "s-2"}[r.Intn(2)]
				kind := r.Intn(8)
				ns := some(r)
				wg.Add(1)
				go func() {
					defer wg.Done()
					switch kind {
					case 0:
						w.avail(t)
					case 1:
						w.related(t, ns)
					default:
						w.auth(t, s)
					}
				}()
			}
			wg.Wait()
			w.grant(toks[0], "s-2", "worker", true)
		}
		w.end()
	}
}

func main() {
	vt.Open()
	var ts []vt.Task
	if vt.Mode == "conc" {
		for i := int64(0); i < vt.N; i++ {
			n := fmt.Sprintf("conc-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: concurrent(vt.Rand(n))})
		}
	} else {
		for i, s := range vt.Scenarios() {
			n := fmt.Sprintf("scn-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: scripted(s, vt.Rand(n))})
		}
		for i := int64(0); i < vt.N; i++ {
			n := fmt.Sprintf("rnd-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: random(vt.Rand(n))})
		}
	}
	vt.RunAll(ts, 32)
	vt.Close()
}
