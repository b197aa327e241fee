// Driver for the access log: raw requests through the real middleware, in a plain
// server and in the authenticating proxy.
package main

import (
	"bufio"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/cfauthproxy"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtx"
)

type R = vt.R

// file is what the log is written to.
type file struct {
	e     *vt.Episode
	mu    sync.Mutex
	buf   string
	since time.Time
	fail  func() bool
}

var rtRE = regexp.MustCompile(`\|0\|rt=(-?\d+) `)

func ms(t time.Time) int64 { return t.UnixNano() / 1000000 }

func (f *file) Write(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.buf += string(p)
	for {
		i := strings.IndexByte(f.buf, '\n')
		if i < 0 {
			break
		}
		line := f.buf[:i]
		f.buf = f.buf[i+1:]
		rt, now := "0", false
		for _, m := range rtRE.FindAllStringSubmatch(line, -1) {
			rt = m[1]
			n, err := strconv.ParseInt(rt, 10, 64)
			if now = err == nil && n >= ms(f.since) && n <= ms(time.Now()); now {
				break
			}
		}
		f.e.Log(R{"op": "line", "text": line, "rt": rt, "now": now})
	}
	if f.fail() {
		return 0, errors.New("disk full")
	}
	return len(p), nil
}

type addr struct{ text, host, port string }

func (a addr) r() R { return R{"text": a.text, "host": a.host, "port": a.port} }

var addrs = map[string][]addr{
	"ip4":  {{"10.1.2.3", "10.1.2.3", ""}, {"203.0.113.195", "203.0.113.195", ""}},
	"port": {{"50.60.70.80:1234", "50.60.70.80", "1234"}, {"[2001:db8::7]:443", "2001:db8::7", "443"}, {"proxy.example.com:80", "proxy.example.com", "80"}},
	"ip6":  {{"2001:db8:85a3::8a2e:370:7334", "2001:db8:85a3::8a2e:370:7334", ""}, {"::1", "::1", ""}, {"[2001:db8::9]", "2001:db8::9", ""}},
	"name": {{"unknown", "unknown", ""}, {"_hidden", "_hidden", ""}},
	"gap":  {{"", "", ""}},
}

var paths = map[string][]string{
	"plain": {"/api/v1/read/app-1", "/", "/api/v1/meta", "/api/v1/query", "/a/b.c~d_e-f"},
	"odd": {"/api/v1/read/a%0Ab", "/x%0d%0aCEF:0|cloud_foundry|log_cache|1.0|GET%20/forged"[:8] + "CEF:0%7Ccloud_foundry", "/a%20b", "/a+b", "/it's", "/a&b",
		"/a%2Fb", "/%22quoted%22", "/a%3Fb", "/ümlaut"[:1] + "%C3%BCmlaut", "/%3Cscript%3E", "/a:b@c,d;e=f$g!h", "/100%25", "/a%7Cb", "/%00", "/%E2%80%A8"},
}

var queries = map[string][]string{
	"none":  {""},
	"plain": {"limit=5", "a=1&b=2", "descending=true&start_time=-1"},
	"odd": {`query=metric{source_id="a"}`, "query=a%0Arequest=/forged", "q=it's<b>", "x=1&amp;y=2", "a=b|c|0|rt=5%20", "%", "a+b=c%2B", "query=%7Bsource_id%3D~%22a%7Cb%22%7D",
		"{{.Method}}", "$1&\\n\\", "a=/?b?c", "=", "ü=☃"},
}

var vcaps = map[string][]string{
	"none":  {""},
	"plain": {"9f0f2b5e-2d14-4a5a-8a70-5f3a9e2f7a11"},
	"odd":   {"a b", `"quoted" 'single'`, "<id>&amp;", "id request=/forged src=6.6.6.6", "x|y|z", "{{ .Path }}", "ünï", "a+b=c", "tab\there"},
}

func one(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

type request struct {
	i                         int
	method, path, query, vcap string
	fwd                       []addr
	refuse, fail              bool
	body                      string
}

func build(r *rand.Rand, i int, o R) request {
	q := request{i: i, refuse: vt.B(o, "no"), fail: vt.B(o, "bad")}
	q.method = []string{"GET", "GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "PROPFIND"}[r.Intn(9)]
	q.path, q.query, q.vcap = one(r, paths[vt.S(o, "path")]), one(r, queries[vt.S(o, "query")]), one(r, vcaps[vt.S(o, "vcap")])
	pick := func(k string) addr { return addrs[k][r.Intn(len(addrs[k]))] }
	if k := vt.S(o, "fwd"); k != "none" {
		q.fwd = append(q.fwd, pick(k))
		for n := r.Intn(3); n > 0; n-- {
			q.fwd = append(q.fwd, pick([]string{"ip4", "port", "ip6", "name"}[r.Intn(4)]))
		}
	}
	if q.method == "POST" || q.method == "PUT" {
		q.body = fmt.Sprint("body ", r.Int())
	}
	return q
}

func (q request) target() string {
	if q.query == "" {
		return q.path
	}
	return q.path + "?" + q.query
}

func (q request) wire(r *rand.Rand) string {
	hs := []string{"Host: example.com", fmt.Sprintf("X-Num: %d", q.i)}
	if q.vcap != "" || r.Intn(4) == 0 {
		hs = append(hs, []string{"X-Vcap-Request-Id: ", "x-vcap-request-id: "}[r.Intn(2)]+q.vcap)
	}
	if len(q.fwd) > 0 {
		var ts []string
		for _, a := range q.fwd {
			ts = append(ts, a.text)
		}
		hs = append(hs, "X-Forwarded-For: "+strings.Join(ts, []string{",", ", "}[r.Intn(2)]))
	}
	if q.refuse {
		hs = append(hs, "X-Refuse: 1")
	}
	if q.body != "" {
		hs = append(hs, fmt.Sprintf("Content-Length: %d", len(q.body)))
	}
	r.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	return q.method + " " + q.target() + " HTTP/1.1\r\n" + strings.Join(hs, "\r\n") + "\r\n\r\n" + q.body
}

// world is a running server: dial connects to it, backend is what it serves from.
type world struct {
	e     *vt.Episode
	mu    sync.Mutex
	reqs  map[int]request
	proxy bool
	built bool // the built program serves, tail is its log
	tail  *tail
	dial  func() (net.Conn, error)
	stop  func()
}

func refusing(h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Header.Get("X-Refuse") != "" {
			w.WriteHeader(404)
			return
		}
		h.ServeHTTP(w, r)
	})
}

func (w *world) drain() {
	if w.tail != nil {
		w.tail.drain()
	}
}

func (w *world) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	i, _ := strconv.Atoi(r.Header.Get("X-Num"))
	w.mu.Lock()
	q := w.reqs[i]
	w.mu.Unlock()
	b, _ := ioutil.ReadAll(r.Body)
	same := r.Method == q.method && string(b) == q.body && r.Header.Get("X-Vcap-Request-Id") == q.vcap
	if !w.proxy {
		same = same && r.RequestURI == q.target()
	}
	w.drain()
	w.e.Log(R{"op": "serve", "i": i, "same": same})
	rw.Header().Set("X-Mine", fmt.Sprint(i))
	rw.WriteHeader(218)
	io.WriteString(rw, fmt.Sprint("answer ", i))
}

var (
	dir  string
	ca   *vtx.CA
	pair vtx.Pair
)

func newWorld(e *vt.Episode, proxy bool, f *file, host, port string) *world {
	w := &world{e: e, reqs: map[int]request{}, proxy: proxy}
	mw := auth.NewAccessMiddleware(auth.NewAccessLogger(f), host, port)
	if !proxy {
		srv := httptest.NewUnstartedServer(mw(refusing(w)))
		srv.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
		srv.Start()
		w.dial = func() (net.Conn, error) { return net.Dial("tcp", srv.Listener.Addr().String()) }
		w.stop = srv.Close
		return w
	}
	back := httptest.NewUnstartedServer(w)
	back.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	back.TLS = &tls.Config{Certificates: []tls.Certificate{pair.TLS()}}
	back.StartTLS()
	p := cfauthproxy.NewCFAuthProxy("https://"+back.Listener.Addr().String(), "127.0.0.1:0", pair.CertPath, pair.KeyPath, ca.Pool(),
		cfauthproxy.WithAuthMiddleware(refusing), cfauthproxy.WithAccessMiddleware(mw))
	p.Start()
	w.dial = func() (net.Conn, error) {
		return tls.Dial("tcp", p.Addr(), &tls.Config{RootCAs: ca.Pool(), ServerName: "localhost"})
	}
	w.stop = back.Close
	return w
}

func (w *world) do(r *rand.Rand, q request, c net.Conn) bool {
	h, p, _ := net.SplitHostPort(c.LocalAddr().String())
	fwd := []R{}
	for _, a := range q.fwd {
		fwd = append(fwd, a.r())
	}
	w.mu.Lock()
	w.reqs[q.i] = q
	w.mu.Unlock()
	w.e.Log(R{"op": "come", "i": q.i, "r": R{"method": q.method, "path": q.path, "query": q.query, "vcap": q.vcap, "fwd": fwd,
		"peer": addr{h + ":" + p, h, p}.r()}})
	c.SetDeadline(time.Now().Add(20 * time.Second))
	if _, err := io.WriteString(c, q.wire(r)); err != nil {
		w.e.Log(R{"op": "cut", "i": q.i})
		return false
	}
	res, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: q.method})
	if err != nil {
		w.e.Log(R{"op": "cut", "i": q.i})
		return false
	}
	b, _ := ioutil.ReadAll(res.Body)
	proper := res.StatusCode == 404 && (w.built || len(b) == 0)
	if !q.refuse {
		proper = res.StatusCode == 218 && string(b) == fmt.Sprint("answer ", q.i) && res.Header.Get("X-Mine") == fmt.Sprint(q.i)
	}
	w.drain()
	w.e.Log(R{"op": "answer", "i": q.i, "refused": q.refuse, "proper": proper, "status": res.StatusCode})
	return true
}

func episode(e *vt.Episode, name string, ops []R, how string, par int) {
	r := vt.Rand(name)
	host, port := fmt.Sprintf("10.0.%d.1", r.Intn(200)), fmt.Sprint(1+r.Intn(60000))
	e.Cfg = R{"host": host, "port": port}
	var qs []request
	for i, o := range ops {
		q := build(r, i+1, o)
		if how == "built" && !q.refuse {
			q.path = "/api/v1/info" // anybody may ask that
		}
		qs = append(qs, q)
	}
	var fm sync.Mutex
	failing := false
	fr := vt.Rand(name + "fail")
	f := &file{e: e, since: time.Now(), fail: func() bool {
		if how == "built" {
			return false
		}
		fm.Lock()
		defer fm.Unlock()
		if par > 1 {
			return fr.Intn(3) == 0
		}
		return failing
	}}
	var w *world
	if how == "built" {
		w = built(e, r, name, f, host)
	} else {
		w = newWorld(e, how == "proxy", f, host, port)
	}
	defer w.stop()
	if par == 1 {
		var c net.Conn
		for _, q := range qs {
			fm.Lock()
			failing = q.fail
			fm.Unlock()
			if c == nil || r.Intn(2) == 0 {
				var err error
				if c, err = w.dial(); err != nil {
					vt.Fatal("dial: %s", err)
				}
				defer c.Close()
			}
			if !w.do(r, q, c) {
				break
			}
		}
	} else {
		var wg sync.WaitGroup
		for k := 0; k < par; k++ {
			wg.Add(1)
			go func(k int, r *rand.Rand) {
				defer wg.Done()
				c, err := w.dial()
				if err != nil {
					vt.Fatal("dial: %s", err)
				}
				defer c.Close()
				for i := k; i < len(qs); i += par {
					if !w.do(r, qs[i], c) {
						return
					}
				}
			}(k, vt.Rand(fmt.Sprint(name, k)))
		}
		wg.Wait()
	}
	w.drain()
	f.mu.Lock()
	e.Log(R{"op": "end", "rest": f.buf})
	f.mu.Unlock()
}

func main() {
	vt.Open()
	dir = vtx.Dir()
	ca = vtx.NewCA(dir, "ca")
	pair = ca.Issue("proxy", []string{"localhost", "127.0.0.1"})
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		n, s, i := fmt.Sprintf("scn-%d", i), s, i
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) { episode(e, n, s, map[bool]string{false: "plain", true: "proxy"}[i%4 == 3], 1) }})
	}
	for i := int64(0); i < vt.N; i++ {
		n, i := fmt.Sprintf("rnd%s-%d", vt.Mode, i), i
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			r := vt.Rand(n)
			var ops []R
			k := 1 + r.Intn(9)
			if vt.Mode == "built" {
				k *= 5
			}
			for ; k > 0; k-- {
				ops = append(ops, R{"fwd": one(r, []string{"none", "ip4", "port", "ip6", "name", "gap"}), "path": one(r, []string{"plain", "odd"}),
					"query": one(r, []string{"none", "plain", "odd"}), "vcap": one(r, []string{"none", "plain", "odd"}), "no": r.Intn(4) == 0, "bad": r.Intn(5) == 0})
			}
			how := map[bool]string{false: "plain", true: "proxy"}[i%3 == 0]
			if vt.Mode == "built" {
				how = "built"
			}
			episode(e, n, ops, how, 1+int(i%4))
		}})
	}
	par := 16
	if vt.Mode == "built" {
		par = 8
	}
	vt.RunAll(ts, par)
	vtx.Remove(dir)
	vt.Close()
}
