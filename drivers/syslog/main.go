// Driver for the syslog server: real TLS connections in, a fake cache behind.
package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/syslog"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtx"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
)

type R = vt.R

type counter struct{ n int64 }

func (c *counter) Add(d float64) { atomic.AddInt64(&c.n, int64(d)) }
func (c *counter) Set(float64)   {}

type registry struct {
	mu sync.Mutex
	m  map[string]*counter
}

func (r *registry) get(n string) *counter {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.m[n] == nil {
		r.m[n] = &counter{}
	}
	return r.m[n]
}
func (r *registry) NewCounter(n string, o ...metrics.MetricOption) metrics.Counter { return r.get(n) }
func (r *registry) val(n string) int64                                             { return atomic.LoadInt64(&r.get(n).n) }

// cache records what it is sent.
type cache struct {
	e    *vt.Episode
	mu   sync.Mutex
	got  int64
	ok   func() bool
	naps *rand.Rand
}

func (c *cache) Send(ctx context.Context, in *rpc.SendRequest, _ ...grpc.CallOption) (*rpc.SendResponse, error) {
	c.mu.Lock()
	ok := c.ok()
	for _, x := range in.GetEnvelopes().GetBatch() {
		c.e.Log(R{"op": "got", "e": seen(x), "ok": ok})
	}
	nap := c.naps.Intn(8) == 0
	c.mu.Unlock()
	if nap {
		time.Sleep(2 * time.Millisecond)
	}
	if !ok {
		atomic.AddInt64(&c.got, 1)
		return nil, errors.New("refused")
	}
	defer atomic.AddInt64(&c.got, 1)
	return &rpc.SendResponse{}, nil
}

func float(f float64) string { return strconv.FormatUint(math.Float64bits(f), 16) }

// seen is an envelope the way Syslog.tla writes it.
func seen(x *loggregator_v2.Envelope) R {
	r := R{"kind": "none", "src": x.SourceId, "ts": fmt.Sprint(x.Timestamp), "inst": x.InstanceId, "a": "", "b": "", "c": "",
		"more": len(x.DeprecatedTags) > 0}
	tags := 0
	switch m := x.Message.(type) {
	case *loggregator_v2.Envelope_Log:
		tags = 1
		r["kind"], r["a"], r["b"], r["c"] = "log", string(m.Log.Payload), m.Log.Type.String(), x.Tags["source_type"]
	case *loggregator_v2.Envelope_Counter:
		r["kind"], r["a"], r["b"], r["c"] = "counter", m.Counter.Name, fmt.Sprint(m.Counter.Delta), fmt.Sprint(m.Counter.Total)
	case *loggregator_v2.Envelope_Gauge:
		r["kind"] = "gauge"
		for n, v := range m.Gauge.Metrics {
			r["a"], r["b"], r["c"] = n, v.GetUnit(), float(v.GetValue())
		}
		if len(m.Gauge.Metrics) != 1 {
			r["more"] = true
		}
	case *loggregator_v2.Envelope_Event:
		r["kind"], r["a"], r["b"] = "event", m.Event.Title, m.Event.Body
	case *loggregator_v2.Envelope_Timer:
		r["kind"], r["a"], r["b"], r["c"] = "timer", m.Timer.Name, fmt.Sprint(m.Timer.Start), fmt.Sprint(m.Timer.Stop)
	}
	if len(x.Tags) != tags {
		r["more"] = true
	}
	return r
}

// num is a text with what it is as a number, "-" if it is none of that kind.
type num struct{ t, u, i, f string }

func fl(f float64) string { return float(f) }

var nums = []num{
	{"0", "0", "0", fl(0)}, {"7", "7", "7", fl(7)}, {"10", "10", "10", fl(10)}, {"007", "7", "7", fl(7)}, {"010", "10", "10", fl(10)}, {"-012", "-", "-12", fl(-12)},
	{"-3", "-", "-3", fl(-3)}, {"+4", "-", "4", fl(4)}, {"1.5", "-", "-", fl(1.5)}, {"0.23", "-", "-", fl(0.23)},
	{"1e3", "-", "-", fl(1000)}, {"-2.5e-3", "-", "-", fl(-0.0025)}, {".5", "-", "-", fl(.5)},
	{"4294967296", "4294967296", "4294967296", fl(4294967296)},
	{"16777217", "16777217", "16777217", fl(16777217)},
	{"9007199254740993", "9007199254740993", "9007199254740993", fl(9007199254740992)},
	{"9223372036854775807", "9223372036854775807", "9223372036854775807", fl(9223372036854775807)},
	{"9223372036854775808", "9223372036854775808", "-", fl(9223372036854775808)},
	{"-9223372036854775808", "-", "-9223372036854775808", fl(-9223372036854775808)},
	{"18446744073709551615", "18446744073709551615", "-", fl(18446744073709551615)},
	{"18446744073709551616", "-", "-", fl(18446744073709551616)},
	{"0.1", "-", "-", fl(0.1)}, {"1e400", "-", "-", "-"},
	{"", "-", "-", "-"}, {"x", "-", "-", "-"}, {"0x10", "-", "-", "-"}, {"0b11", "-", "-", "-"}, {"12 ", "-", "-", "-"}, {" 12", "-", "-", "-"},
	{"1,000", "-", "-", "-"}, {"12s", "-", "-", "-"}, {"--1", "-", "-", "-"}, {"٣", "-", "-", "-"},
}

var texts = []string{"", "cpu", "a b", `q"uo]te\s`, "umläut ☃", "requests_total", "x=y", "[b]", "a/b", " pad ", "%s%d"}

// times are texts with the nanoseconds since 1970 they stand for.
var times = [][2]string{
	{"1970-01-01T00:00:00.012345+00:00", "12345000"}, {"1970-01-01T00:00:00Z", "0"}, {"1970-01-01T01:00:00+01:00", "0"},
	{"1969-12-31T23:59:59.5Z", "-500000000"}, {"2018-11-05T10:20:30.000001-08:00", "1541442030000001000"},
	{"2038-01-19T03:14:08.999999Z", "2147483648999999000"}, {"1970-01-01T00:00:00.000001Z", "1000"},
	{"1970-01-02T00:00:00.1-00:30", "88200100000000"},
}

type msg struct {
	text string // as sent, without its length
	raw  bool   // text is to be sent as it is
	spec R
}

func escape(s string) string {
	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, `]`, `\]`).Replace(s)
}

func one(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

func par(t string, n num) R { return R{"has": true, "text": t, "u": n.u, "i": n.i, "f": n.f} }

var sdNames = map[string][]string{
	"counter": {"counter@47450", "counter", "counters", "counter@1"},
	"gauge":   {"gauge@47450", "gauge", "gauge-x"},
	"event":   {"event@47450", "event", "events@9"},
	"timer":   {"timer@47450", "timer", "timers", "timer@2"},
	"other":   {"meta", "tags@47450", "Counter@47450", "xcounter", "time", "even"},
}

// element makes a structured data element of the kind: good, bad or either.
func element(r *rand.Rand, kind, want string, n int) (string, R) {
	id := one(r, sdNames[kind]...)
	ps := R{}
	var txt []string
	put := func(name, t string, v num) {
		ps[name] = par(t, v)
		txt = append(txt, fmt.Sprintf(`%s="%s"`, name, escape(t)))
	}
	none := num{"", "-", "-", "-"}
	// of a bad element, one parameter at least is bad; mostly just that one
	bad := false
	number := func(get func(num) string) num {
		w := want
		if w == "bad" && bad && r.Intn(4) > 0 {
			w = "good"
		}
		for {
			v := nums[r.Intn(len(nums))]
			if w == "" || (w == "good") == (get(v) != "-") {
				bad = bad || w == "bad"
				return v
			}
		}
	}
	name := func() {
		if r.Intn(8) > 0 {
			put("name", one(r, texts...), none)
		}
	}
	skip := func() bool {
		b := want != "good" && r.Intn(6) == 0
		bad = bad || b
		return b
	}
	var fs []func()
	switch kind {
	case "counter":
		u := func(v num) string { return v.u }
		fs = []func(){name, func() {
			if !skip() {
				v := number(u)
				put("delta", v.t, v)
			}
		}, func() {
			if !skip() {
				v := number(u)
				put("total", v.t, v)
			}
		}}
	case "gauge":
		fs = []func(){name, func() {
			if skip() || want == "bad" && !bad && r.Intn(4) == 0 {
				bad = true
			} else {
				put("unit", one(r, texts...), none)
			}
		}, func() {
			if !skip() {
				v := number(func(v num) string { return v.f })
				put("value", v.t, v)
			}
		}}
	case "timer":
		i := func(v num) string { return v.i }
		fs = []func(){name, func() {
			if !skip() {
				v := number(i)
				put("start", v.t, v)
			}
		}, func() {
			if !skip() {
				v := number(i)
				put("stop", v.t, v)
			}
		}}
	case "event":
		fs = []func(){func() {
			if r.Intn(5) > 0 {
				put("title", one(r, texts...)+fmt.Sprint(n), none)
			}
		}, func() {
			if r.Intn(5) > 0 {
				put("body", one(r, texts...), none)
			}
		}}
	}
	if r.Intn(4) == 0 {
		fs = append(fs, func() { put("extra", one(r, texts...), none) })
	}
	for _, k := range r.Perm(len(fs)) {
		fs[k]()
	}
	s := "[" + id
	for _, t := range txt {
		s += " " + t
	}
	return s + "]", R{"kind": kind, "pars": ps, "id": id}
}

func make1(r *rand.Rand, kind string, n int) msg {
	pri := []int{14, 14, 11, 11, 0, 3, 10, 12, 15, 19, 27, 139, 191}[r.Intn(13)]
	app := one(r, "app-1", "app-2", "9f0f2b5e-2d14-4a5a-8a70-5f3a9e2f7a11", "a", "x/y:z")
	t := times[r.Intn(len(times))]
	proc := [][]string{{"APP", "PROC", "WEB", "0"}, {"1"}, {"APP", "2"}, {"RTR", "1"}, {"APP", ""}, {"", "5"}, {"a[b", "c]d"}, {"CELL", "SSHD", "13"}, {""}}[r.Intn(9)]
	l, rt := one(r, "[", "[", "", "[["), one(r, "]", "]", "", "]]")
	if len(proc) == 1 && proc[0] == "" && l+rt == "" {
		l = "["
	}
	ptxt := l + strings.Join(proc, "/") + rt
	payload := one(r, "just a test", "", "two\nlines", "{\"json\": [1, 2]}", "<14>1 - - - - - nested", "tab\tinside", "ünïcode ☃", "89 <14>", "-", strings.Repeat("long ", 4000)) + one(r, "", "", fmt.Sprint(" #", n))
	text, pad := strings.Trim(payload, " "), one(r, "", "", "\n", " \n", "\t", "\r\n")
	lead := one(r, "", "", "", " ", "  ")
	if kind == "" {
		kind = one(r, "log", "log", "log", "err", "noproc", "noapp", "nots", "nomsg", "counter", "badcounter", "gauge", "badgauge", "timer", "badtimer", "event", "event", "other", "multi")
	}
	sd, els := "-", []R{}
	add := func(kind, want string) {
		for {
			t, x := element(r, kind, want, n)
			dup := false
			for _, y := range els {
				dup = dup || y["id"] == x["id"]
			}
			if dup {
				continue
			}
			if len(els) == 0 {
				sd = ""
			}
			sd += t
			els = append(els, x)
			return
		}
	}
	spec := R{"broken": false}
	switch kind {
	case "log":
		if pri == 11 {
			pri = 13
		}
	case "err":
		pri = 11
	case "noproc":
		proc, ptxt = []string{}, "-"
	case "noapp":
		app = "-"
	case "nots":
		t = [2]string{"-", ""}
	case "nomsg":
		text, pad, lead = "", "", ""
	case "counter", "gauge", "timer", "event":
		add(kind, "good")
	case "badcounter", "badgauge", "badtimer":
		add(kind[3:], "bad")
	case "other":
		add(kind, "")
	case "multi":
		for k := 2 + r.Intn(2); k > 0; k-- {
			add(one(r, "counter", "gauge", "timer", "event", "other"), "")
		}
	}
	s := fmt.Sprintf("<%d>1 %s %s %s %s %s %s", pri, t[0], one(r, "-", "host"), app, ptxt, one(r, "-", "ID47"), sd)
	if kind != "nomsg" {
		s += " " + lead + text + pad
	} else if r.Intn(2) == 0 {
		s += " "
	}
	if app == "-" {
		app = ""
	}
	for _, x := range els {
		delete(x, "id")
	}
	spec["pri"], spec["app"], spec["ts"], spec["proc"], spec["sd"], spec["text"] = pri, app, t[1], proc, els, text
	m := msg{text: s, spec: spec}
	if kind == "broken" {
		m.raw = true
		spec["broken"] = true
		switch r.Intn(6) {
		case 0: // ends before its length says
			m.text = fmt.Sprintf("%d %s", len(s)+50, s)
		case 1: // no message
			m.text = "17 this is no syslog"
		case 2: // no length
			m.text = s
		case 3: // no such priority
			m.text = fmt.Sprintf("%d %s", len(s)+5-len(fmt.Sprint(pri)), strings.Replace(s, fmt.Sprintf("<%d>", pri), "<99999>", 1))
		case 4: // shorter than it is: what follows is no length
			m.text = fmt.Sprintf("%d %s", 10, s)
		case 5:
			m.text = fmt.Sprintf("%d %s", 0, s)
		}
	}
	return m
}

func (m msg) wire() string {
	if m.raw {
		return m.text
	}
	return fmt.Sprintf("%d %s", len(m.text), m.text)
}

var (
	dir  string
	pair vtx.Pair
)

type world struct {
	e   *vt.Episode
	c   *cache
	reg *registry
	srv *syslog.Server
}

func start(e *vt.Episode, name string, ok func() bool, opts ...syslog.ServerOption) *world {
	w := &world{e: e, reg: &registry{m: map[string]*counter{}}}
	w.c = &cache{e: e, ok: ok, naps: vt.Rand(name + "naps")}
	w.srv = syslog.NewServer(log.New(ioutil.Discard, "", 0), w.c, w.reg, pair.CertPath, pair.KeyPath, append([]syslog.ServerOption{syslog.WithServerPort(0)}, opts...)...)
	go w.srv.Start()
	if !vt.Eventually(20*time.Second, func() bool { return w.srv.Addr() != "" }) {
		vt.Fatal("server does not start")
	}
	return w
}

func (w *world) dial() *tls.Conn {
	_, port, _ := net.SplitHostPort(w.srv.Addr())
	for i := 0; ; i++ {
		c, err := tls.Dial("tcp", "127.0.0.1:"+port, &tls.Config{InsecureSkipVerify: true, MaxVersion: tls.VersionTLS12})
		if err == nil {
			return c
		}
		if i > 20 {
			w.e.Log(R{"op": "refuses connections"})
			return nil
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func (w *world) dealt() int64 { return atomic.LoadInt64(&w.c.got) + w.reg.val("invalid_ingress") }

func specs(conns [][]msg) []interface{} {
	res := []interface{}{}
	for _, c := range conns {
		l := []R{}
		for _, m := range c {
			l = append(l, m.spec)
		}
		res = append(res, l)
	}
	return res
}

// pieces writes s in r's pieces.
func pieces(r *rand.Rand, c *tls.Conn, s string) {
	for len(s) > 0 {
		n := len(s)
		if r.Intn(2) == 0 {
			n = 1 + r.Intn(n)
		}
		if _, err := c.Write([]byte(s[:n])); err != nil {
			return
		}
		s = s[n:]
		if r.Intn(6) == 0 {
			time.Sleep(time.Millisecond)
		}
	}
}

// scripted deals with the messages one by one, in the scenario's order.
func scripted(e *vt.Episode, name string, ops []R) {
	r := vt.Rand(name)
	conns := make([][]msg, 0)
	var ms []msg
	for i, o := range ops {
		m := make1(r, vt.S(o, "k"), i)
		ms = append(ms, m)
		for len(conns) < vt.I(o, "c") {
			conns = append(conns, []msg{})
		}
		conns[vt.I(o, "c")-1] = append(conns[vt.I(o, "c")-1], m)
	}
	e.Cfg = R{"conns": specs(conns), "idle": false}
	var cur int32 = 1
	w := start(e, name, func() bool { return atomic.LoadInt32(&cur) == 1 })
	cs := make([]*tls.Conn, len(conns))
	for i, o := range ops {
		c := vt.I(o, "c") - 1
		if cs[c] == nil {
			if cs[c] = w.dial(); cs[c] == nil {
				return
			}
			defer cs[c].Close()
		}
		ok := int32(0)
		if vt.B(o, "ok") {
			ok = 1
		}
		atomic.StoreInt32(&cur, ok)
		pieces(r, cs[c], ms[i].wire())
		if ms[i].raw {
			cs[c].Close()
		}
		if !vt.Eventually(5*time.Second, func() bool { return w.dealt() >= int64(i+1) }) {
			break
		}
	}
	time.Sleep(5 * time.Millisecond)
	w.e.Log(R{"op": "end", "ingress": w.reg.val("ingress"), "invalid": w.reg.val("invalid_ingress")})
	w.srv.Stop()
}

func random(e *vt.Episode, name string) {
	r := vt.Rand(name)
	conns := make([][]msg, 1+r.Intn(3))
	total := int64(0)
	for i := range conns {
		conns[i] = []msg{}
		n := r.Intn(6)
		for k := 0; k < n; k++ {
			conns[i] = append(conns[i], make1(r, "", i*10+k))
		}
		if r.Intn(4) == 0 {
			conns[i] = append(conns[i], make1(r, "broken", i*10+9))
		}
		total += int64(len(conns[i]))
	}
	e.Cfg = R{"conns": specs(conns), "idle": false}
	bad := r.Intn(3) == 0
	fr := vt.Rand(name + "fail")
	refused := int64(0)
	w := start(e, name, func() bool {
		if bad && fr.Intn(3) == 0 {
			atomic.AddInt64(&refused, 1)
			return false
		}
		return true
	})
	var wg sync.WaitGroup
	for i := range conns {
		wg.Add(1)
		go func(i int, r *rand.Rand) {
			defer wg.Done()
			c := w.dial()
			if c == nil {
				return
			}
			defer c.Close()
			s := ""
			for _, m := range conns[i] {
				s += m.wire()
				if r.Intn(2) == 0 {
					pieces(r, c, s)
					s = ""
				}
			}
			pieces(r, c, s)
			if r.Intn(2) == 0 || len(conns[i]) == 0 {
				return
			}
			if conns[i][len(conns[i])-1].raw {
				return
			}
			// stays open until all is dealt with
			vt.Eventually(2*time.Second, func() bool { return w.dealt() >= total })
		}(i, vt.Rand(fmt.Sprint(name, i)))
	}
	wg.Wait()
	vt.Eventually(5*time.Second, func() bool { return w.dealt() >= total })
	vt.Eventually(time.Second, func() bool {
		return w.reg.val("ingress")+atomic.LoadInt64(&refused)+w.reg.val("invalid_ingress") >= total
	})
	time.Sleep(10 * time.Millisecond)
	w.e.Log(R{"op": "end", "ingress": w.reg.val("ingress"), "invalid": w.reg.val("invalid_ingress")})
	w.srv.Stop()
}

// idle keeps one connection busy for longer than the timeout, then leaves it alone.
func idle(e *vt.Episode, name string) {
	r := vt.Rand(name)
	ms := []msg{}
	for k := 0; k < 7; k++ {
		ms = append(ms, make1(r, one(r, "log", "badcounter", "event"), k))
	}
	e.Cfg = R{"conns": specs([][]msg{ms, {}}), "idle": true}
	w := start(e, name, func() bool { return true }, syslog.WithIdleTimeout(1200*time.Millisecond))
	a, b := w.dial(), w.dial()
	if a == nil || b == nil {
		return
	}
	defer a.Close()
	defer b.Close()
	for i, m := range ms {
		pieces(r, a, m.wire())
		vt.Eventually(5*time.Second, func() bool { return w.dealt() >= int64(i+1) })
		time.Sleep(300 * time.Millisecond)
	}
	w.e.Log(R{"op": "end", "ingress": w.reg.val("ingress"), "invalid": w.reg.val("invalid_ingress")})
	for i, c := range []*tls.Conn{a, b} {
		c.SetReadDeadline(time.Now().Add(8 * time.Second))
		_, err := c.Read(make([]byte, 1))
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			e.Log(R{"op": "stays open", "c": i + 1})
		} else {
			e.Log(R{"op": "cut", "c": i + 1})
		}
	}
	w.srv.Stop()
}

func main() {
	vt.Open()
	dir = vtx.Dir()
	pair = vtx.NewCA(dir, "ca").Issue("syslog", []string{"localhost"})
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		n, s := fmt.Sprintf("scn-%d", i), s
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) { scripted(e, n, s) }})
	}
	for i := int64(0); i < vt.N; i++ {
		n := fmt.Sprintf("rnd-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) { random(e, n) }})
	}
	for i := int64(0); i < 2+vt.N/100; i++ {
		n := fmt.Sprintf("idle-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) { idle(e, n) }})
	}
	vt.RunAll(ts, 16)
	vtx.Remove(dir)
	vt.Close()
}
