package main

import (
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
)

// A metric name as queries write it, and names that envelopes may have for it.
var sanitized = []struct {
	name string
	raw  []string
}{
	{"m", []string{"m"}}, {"a_b", []string{"a.b", "a-b", "a_b", "a b", "a/b", "a:b"}}, {"_x", []string{"1x", "_x", "-x", "üx", "9x"}}, {"http_2xx_", []string{"http.2xx.", "http-2xx%", "http_2xx_"}},
	{"a__b", []string{"a..b", "a__b", "a. b"}}, {"M", []string{"M"}}, {"cpu", []string{"cpu"}}, {"a_b_c", []string{"a.b.c", "a_b.c"}}, {"x1", []string{"x1"}}, {"_", []string{"_", "7", "."}},
}

type sample struct {
	src, inst, name string
	tags            []R // k, v: words
	t               int64
	v               string
}

// stage: what is stored, and what the words stand for.
type stage struct {
	r      *rand.Rand
	base   int64 // ms
	str    map[string]string
	back   map[string]string
	name   map[string]int // word -> row of sanitized
	bits   map[string]string
	num    map[string]float64
	envs   map[string][]*loggregator_v2.Envelope
	broken map[string]bool
	hang   bool
}

func (x *stage) word(s string) string {
	if w, ok := x.back[s]; ok {
		return w
	}
	return "?" + s
}

func key(f float64) string {
	if f != f {
		return "NaN"
	}
	return strconv.FormatFloat(f, 'x', -1, 64)
}

func (x *stage) value(f float64) string {
	if w, ok := x.bits[key(f)]; ok {
		return w
	}
	return fmt.Sprint("?", f)
}

var labelWords = map[string]string{"k": "k", "j": "job", "source_id": "source_id", "instance_id": "instance_id", "z": "a.b c"}

func newStage(r *rand.Rand, srcs []string, vals []string) *stage {
	x := &stage{r: r, base: 1500000000000 + 1000*r.Int63n(2e8), str: map[string]string{"": ""}, back: map[string]string{"": ""}, name: map[string]int{}, bits: map[string]string{}, num: map[string]float64{},
		envs: map[string][]*loggregator_v2.Envelope{}, broken: map[string]bool{}}
	bind := func(w, s string) {
		for x.back[s] != "" || s == "" {
			s += "y"
		}
		x.str[w], x.back[s] = s, w
	}
	style := r.Intn(4)
	for i, w := range srcs {
		s := fmt.Sprintf([]string{"8e0c2a1b-1111-4000-8000-00000000000%d", "app-%d", "p/q %d", "%d"}[style], i)
		if i > 0 && r.Intn(3) == 0 {
			s = x.str[srcs[i-1]] + rnd(r, "x", "-1", "-")
		}
		bind(w, s)
	}
	for i, w := range vals {
		switch {
		case w == "0":
			bind(w, "0")
		case i > 1 && r.Intn(3) > 0: // a value that, joined to its label, looks like two labels
			sep := rnd(r, "-", "-", ",", ":", "", "=", "|", "\"")
			bind(w, x.str[vals[0]]+sep+"k"+sep+x.str[vals[1]])
		case i > 0 && r.Intn(2) == 0: // values that, put beside labels and each other, look like others
			p := x.str[vals[i-1]]
			bind(w, rnd(r, p+"-job-"+p, p+"\"job\""+p, p+",job="+p, p+"|"+p, p+" ", "."+p, p+"\xc3\xa9", p+"\\"))
		default:
			bind(w, fmt.Sprintf(rnd(r, "v%d", "V %d", "%d", "-%d", "(%d"), i))
		}
	}
	rows := r.Perm(len(sanitized))
	for i, w := range []string{"m", "n", "o"} {
		x.name[w] = rows[i]
	}
	return x
}

// put turns samples into envelopes.
func (x *stage) put(e *vt.Episode, ss []sample, broken []string) {
	r := x.r
	x.bits[key(77.125)] = "u77"
	var more []sample
	for i := 0; i < len(ss); {
		s := ss[i]
		env := &loggregator_v2.Envelope{SourceId: x.str[s.src], InstanceId: x.str[s.inst], Timestamp: (x.base+s.t)*1e6 + []int64{0, 0, 999999, r.Int63n(1e6)}[r.Intn(4)]}
		for _, p := range s.tags {
			if env.Tags == nil {
				env.Tags = map[string]string{}
			}
			env.Tags[labelWords[p["k"].(string)]] = x.str[p["v"].(string)]
		}
		row := sanitized[x.name[s.name]]
		raw := row.raw[r.Intn(len(row.raw))]
		number := func(f float64) bool {
			if _, ok := x.bits[key(f)]; ok {
				return false
			}
			x.bits[key(f)], x.num[s.v] = s.v, f
			return true
		}
		switch r.Intn(3) {
		case 0:
			var n uint64
			for ok := false; !ok; ok = number(float64(n)) {
				n = []uint64{r.Uint64(), uint64(r.Intn(1000)), 1<<63 + uint64(r.Int63()), 0}[r.Intn(4)]
			}
			env.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: raw, Total: n, Delta: n / 3}}
			i++
		case 1:
			var a, b int64
			for ok := false; !ok; ok = number(float64(b - a)) {
				a = r.Int63n(1 << 62)
				b = a + []int64{r.Int63n(1e12), -r.Int63n(1e9), r.Int63n(50)}[r.Intn(3)]
			}
			env.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: raw, Start: a, Stop: b}}
			i++
		default:
			g := &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{}}
			for {
				var f float64
				for ok := false; !ok; ok = number(f) {
					f = []float64{r.NormFloat64(), math.NaN(), math.Inf(1), math.Inf(-1), 0, float64(r.Intn(100)), -1.5e300, 5e-324}[r.Intn(8)]
				}
				g.Metrics[raw] = &loggregator_v2.GaugeValue{Unit: "b", Value: f}
				i++
				// more metrics of the same envelope
				if i >= len(ss) || ss[i].src != s.src || ss[i].inst != s.inst || ss[i].t != s.t || fmt.Sprint(ss[i].tags) != fmt.Sprint(s.tags) || r.Intn(4) == 0 {
					break
				}
				row = sanitized[x.name[ss[i].name]]
				raw = row.raw[r.Intn(len(row.raw))]
				if g.Metrics[raw] != nil {
					break
				}
				s = ss[i]
			}
			if r.Intn(3) == 0 {
				g.Metrics["unrelated"] = &loggregator_v2.GaugeValue{Value: 77.125}
				s.name, s.v = "unrelated", "u77"
				more = append(more, s)
			}
			env.Message = &loggregator_v2.Envelope_Gauge{Gauge: g}
		}
		x.envs[s.src] = append(x.envs[s.src], env)
		if r.Intn(5) == 0 { // what is no metric at all
			o := proto.Clone(env).(*loggregator_v2.Envelope)
			o.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(raw)}}
			if r.Intn(2) == 0 {
				o.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: raw}}
			}
			x.envs[s.src] = append(x.envs[s.src], o)
		}
	}
	for _, es := range x.envs {
		sort.SliceStable(es, func(i, j int) bool { return es[i].Timestamp < es[j].Timestamp })
	}
	rec := []R{}
	for _, s := range append(append([]sample{}, ss...), more...) {
		rec = append(rec, R{"src": s.src, "inst": s.inst, "name": s.name, "tags": s.tags, "t": s.t, "v": s.v})
	}
	for _, b := range broken {
		x.broken[b] = true
	}
	e.Log(R{"op": "world", "samples": rec, "broken": broken})
}

func kindOf(e *loggregator_v2.Envelope) logcache_v1.EnvelopeType {
	switch e.Message.(type) {
	case *loggregator_v2.Envelope_Counter:
		return logcache_v1.EnvelopeType_COUNTER
	case *loggregator_v2.Envelope_Gauge:
		return logcache_v1.EnvelopeType_GAUGE
	case *loggregator_v2.Envelope_Timer:
		return logcache_v1.EnvelopeType_TIMER
	case *loggregator_v2.Envelope_Event:
		return logcache_v1.EnvelopeType_EVENT
	}
	return logcache_v1.EnvelopeType_LOG
}

// Read is what a query reads from.
func (x *stage) Read(ctx context.Context, q *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	w := x.word(q.SourceId)
	if x.broken[w] {
		if x.hang {
			<-ctx.Done()
			return nil, ctx.Err()
		}
		return nil, errors.New("cannot read")
	}
	out := &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{}}
	for _, e := range x.envs[w] {
		ok := len(q.EnvelopeTypes) == 0
		for _, t := range q.EnvelopeTypes {
			ok = ok || t == kindOf(e) || t == logcache_v1.EnvelopeType_ANY
		}
		if ok && e.Timestamp >= q.StartTime && e.Timestamp < q.EndTime {
			out.Envelopes.Batch = append(out.Envelopes.Batch, proto.Clone(e).(*loggregator_v2.Envelope))
		}
	}
	return out, nil
}

// ---------------------------------------------------------------- queries

type matcher struct {
	Label, Kind string
	Vals        []string
}

type selector struct {
	Names, Sources, Matchers []matcher
	Range, Offset            int64
}

type query struct {
	Parses           bool
	Kind             string
	Sels             []selector
	Start, End, Step int64
	Scalar           string
}

func matchersOf(v interface{}) []matcher {
	var out []matcher
	for _, o := range v.([]interface{}) {
		m := o.(map[string]interface{})
		l := ""
		if s, ok := m["label"]; ok {
			l = s.(string)
		}
		out = append(out, matcher{l, m["kind"].(string), strs(m["vals"])})
	}
	return out
}

func queryOf(o map[string]interface{}) query {
	q := query{Parses: o["parses"].(bool), Kind: vt.S(o, "kind"), Start: int64(vt.I(o, "start")), End: int64(vt.I(o, "end")), Step: int64(vt.I(o, "step")), Scalar: "-"}
	for _, v := range o["sels"].([]interface{}) {
		m := v.(map[string]interface{})
		q.Sels = append(q.Sels, selector{matchersOf(m["names"]), matchersOf(m["sources"]), matchersOf(m["matchers"]), int64(vt.I(m, "range")), int64(vt.I(m, "offset"))})
	}
	return q
}

func mrec(ms []matcher) []R {
	out := []R{}
	for _, m := range ms {
		out = append(out, R{"label": m.Label, "kind": m.Kind, "vals": m.Vals})
	}
	return out
}

func (q query) rec() R {
	sels := []R{}
	for _, s := range q.Sels {
		sels = append(sels, R{"names": mrec(s.Names), "sources": mrec(s.Sources), "matchers": mrec(s.Matchers), "range": s.Range, "offset": s.Offset})
	}
	return R{"parses": q.Parses, "kind": q.Kind, "sels": sels, "start": q.Start, "end": q.End, "step": q.Step, "scalar": q.Scalar}
}

// dur: queries know no milliseconds, steps do.
func dur(r *rand.Rand, ms int64) string {
	switch {
	case ms%1000 == 0 && ms%60000 != 0:
		return fmt.Sprintf("%ds", ms/1000)
	case ms%60000 == 0 && r.Intn(2) == 0:
		return fmt.Sprintf("%dm", ms/60000)
	case ms%1000 == 0:
		return fmt.Sprintf("%ds", ms/1000)
	}
	return fmt.Sprintf("%dms", ms)
}

// one writes a matcher; list says whether alternatives are written as they are.
func one(r *rand.Rand, label string, m matcher, str func(string) string, list bool) string {
	var vs []string
	for _, v := range m.Vals {
		vs = append(vs, str(v))
	}
	r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	op, val := "=", ""
	if len(vs) != 1 || r.Intn(3) == 0 {
		op = "=~"
		if !list {
			for i := range vs {
				vs[i] = regexp.QuoteMeta(vs[i])
			}
		}
		val = strings.Join(vs, "|")
		if !list && r.Intn(4) == 0 {
			val = "(" + val + ")"
		}
	} else {
		val = vs[0]
	}
	if m.Kind == "not" {
		op = map[string]string{"=": "!=", "=~": "!~"}[op]
	}
	return label + op + strconv.Quote(val)
}

func (x *stage) text(r *rand.Rand, q query) string {
	switch {
	case !q.Parses:
		return []string{"", "{", "m{", `m{source_id="` + x.str["a"] + `"} +`, "sum(", `m{source_id="a",k=~"("}`, `{source_id=~".*"}`, "rate(m)", `m{source_id="a"}[5]`, "m{source_id='a'} or or n{source_id='a'}"}[r.Intn(10)]
	case q.Kind == "scalar":
		return rnd(r, q.Scalar, "("+q.Scalar+")", q.Scalar+" + 0", "scalar(vector("+q.Scalar+"))")
	case q.Kind == "string":
		return rnd(r, `"abc"`, `("abc")`, `""`, "'x'")
	}
	var out []string
	for _, s := range q.Sels {
		var ms []string
		name := ""
		for _, m := range s.Names {
			str := func(w string) string { return sanitized[x.name[w]].name }
			if m.Kind == "is" && len(m.Vals) == 1 && len(s.Names) == 1 && r.Intn(3) > 0 {
				name = str(m.Vals[0])
				continue
			}
			ms = append(ms, one(r, "__name__", m, str, false))
		}
		str := func(w string) string { return x.str[w] }
		for _, m := range s.Sources {
			ms = append(ms, one(r, "source_id", m, str, true))
		}
		for _, m := range s.Matchers {
			ms = append(ms, one(r, labelWords[m.Label], m, str, false))
		}
		r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		t := name + "{" + strings.Join(ms, ",") + "}"
		if len(ms) == 0 && name != "" && r.Intn(2) == 0 {
			t = name
		}
		if s.Range > 0 {
			t += "[" + dur(r, s.Range) + "]"
		}
		if s.Offset > 0 {
			t += " offset " + dur(r, s.Offset)
		}
		if r.Intn(4) == 0 {
			t = "(" + t + ")"
		}
		out = append(out, t)
	}
	return strings.Join(out, " or ")
}

func (x *stage) when(r *rand.Rand, ms int64) string {
	a := x.base + ms
	switch r.Intn(3) {
	case 0:
		return time.Unix(0, a*1e6).In(time.FixedZone("", 7200)).Format(time.RFC3339Nano)
	case 1:
		if a%1000 == 0 {
			return fmt.Sprint(a / 1000)
		}
	}
	return fmt.Sprintf("%d.%03d", a/1000, a%1000)
}

func (x *stage) ms(s string) int64 {
	i := strings.IndexByte(s, '.')
	if i < 0 || len(s)-i != 4 {
		return -999999999
	}
	n, err := strconv.ParseInt(s[:i]+s[i+1:], 10, 64)
	if err != nil || n-x.base > 1<<30 || n-x.base < -1<<30 {
		return -999999999
	}
	return n - x.base
}

func (x *stage) labels(m map[string]string) []R {
	out := []R{}
	for k, v := range m {
		w := "?" + k
		for lw, l := range labelWords {
			if l == k {
				w = lw
			}
		}
		out = append(out, R{"k": w, "v": x.word(v)})
	}
	return out
}

func (x *stage) point(p *logcache_v1.PromQL_Point) R {
	return R{"t": x.ms(p.GetTime()), "v": x.value(p.GetValue())}
}

func (x *stage) ask(e *vt.Episode, r *rand.Rand, p *promql.PromQL, q query, now bool) {
	text := x.text(r, q)
	ans := []R{}
	var err error
	ok, crash := vt.Within(60*time.Second, func() {
		ctx := context.Background()
		if q.Kind == "range" {
			var res *logcache_v1.PromQL_RangeQueryResult
			step := rnd(r, dur(r, q.Step), fmt.Sprintf("%d.%03d", q.Step/1000, q.Step%1000))
			if q.Step < 0 {
				step = fmt.Sprintf("-%d.%03d", -q.Step/1000, -q.Step%1000)
			}
			res, err = p.RangeQuery(ctx, &logcache_v1.PromQL_RangeQueryRequest{Query: text, Start: x.when(r, q.Start), End: x.when(r, q.End), Step: step})
			if err != nil {
				return
			}
			if res.GetMatrix() == nil {
				err = nil
				ans = append(ans, R{"labels": []R{{"k": "no", "v": "matrix"}}, "points": []R{}})
			}
			for _, s := range res.GetMatrix().GetSeries() {
				ps := []R{}
				for _, pt := range s.GetPoints() {
					ps = append(ps, x.point(pt))
				}
				ans = append(ans, R{"labels": x.labels(s.GetMetric()), "points": ps})
			}
			return
		}
		var res *logcache_v1.PromQL_InstantQueryResult
		req := &logcache_v1.PromQL_InstantQueryRequest{Query: text, Time: x.when(r, q.End)}
		if now {
			req.Time = ""
		}
		before := time.Now().Truncate(time.Second)
		res, err = p.InstantQuery(ctx, req)
		after := time.Now()
		if err != nil {
			return
		}
		if now {
			q.End = before.UnixNano()/1e6 - x.base
			t := ""
			if s := res.GetScalar(); s != nil {
				t = s.GetTime()
			}
			for _, s := range res.GetVector().GetSamples() {
				t = s.GetPoint().GetTime()
			}
			if ms := x.ms(t); ms+x.base >= before.UnixNano()/1e6 && ms+x.base <= after.UnixNano()/1e6 {
				q.End = ms
			}
			q.Start = q.End
		}
		switch v := res.GetResult().(type) {
		case *logcache_v1.PromQL_InstantQueryResult_Scalar:
			ans = append(ans, R{"labels": []R{}, "points": []R{{"t": x.ms(v.Scalar.GetTime()), "v": fmt.Sprint(v.Scalar.GetValue())}}})
			if q.Kind != "scalar" {
				ans[0]["labels"] = []R{{"k": "no", "v": "scalar"}}
			}
		case *logcache_v1.PromQL_InstantQueryResult_Vector:
			for _, s := range v.Vector.GetSamples() {
				ans = append(ans, R{"labels": x.labels(s.GetMetric()), "points": []R{x.point(s.GetPoint())}})
			}
			if q.Kind != "instant" {
				ans = append(ans, R{"labels": []R{{"k": "no", "v": "vector"}}, "points": []R{}})
			}
		case *logcache_v1.PromQL_InstantQueryResult_Matrix:
			for _, s := range v.Matrix.GetSeries() {
				ps := []R{}
				for _, pt := range s.GetPoints() {
					ps = append(ps, x.point(pt))
				}
				ans = append(ans, R{"labels": x.labels(s.GetMetric()), "points": ps})
			}
			if q.Kind != "matrix" {
				ans = append(ans, R{"labels": []R{{"k": "no", "v": "matrix"}}, "points": []R{}})
			}
		}
	})
	if !ok || crash != "" {
		e.Log(R{"op": "stuck", "text": text, "crash": crash})
		return
	}
	rec := R{"op": "query", "q": q.rec(), "text": text, "err": err != nil, "answer": ans}
	if err != nil {
		rec["error"] = err.Error()
	}
	e.Log(rec)
}

func newPromQL(x *stage) *promql.PromQL {
	l := log.New(ioutil.Discard, "", 0)
	return promql.New(x, metrics.NewRegistry(l), l, 20*time.Second)
}

func queryScenario(name string, ops []R) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		x := newStage(r, []string{"a", "b"}, []string{"v", "w", "0"})
		var ss []sample
		for _, o := range ops[0]["samples"].([]interface{}) {
			m := o.(map[string]interface{})
			tags := []R{}
			for _, p := range m["tags"].([]interface{}) {
				kv := p.([]interface{})
				tags = append(tags, R{"k": kv[0].(string), "v": kv[1].(string)})
			}
			ss = append(ss, sample{vt.S(m, "src"), vt.S(m, "inst"), vt.S(m, "name"), tags, int64(vt.I(m, "t")), fmt.Sprintf("v%d", vt.I(m, "v"))})
		}
		x.put(e, ss, strs(ops[0]["broken"]))
		x.ask(e, r, newPromQL(x), queryOf(ops[1]["q"].(map[string]interface{})), false)
	}
}

func subset(r *rand.Rand, ws []string, of int) []string {
	out := []string{}
	for _, w := range ws {
		if r.Intn(of) == 0 {
			out = append(out, w)
		}
	}
	if len(out) == 0 {
		out = append(out, ws[r.Intn(len(ws))])
	}
	return out
}

func randomQuery(r *rand.Rand, srcs, vals []string, at int64) query {
	q := query{Parses: r.Intn(25) > 0, Kind: rnd(r, "instant", "instant", "matrix", "matrix", "range", "range", "range", "scalar", "string"), Scalar: "-"}
	if q.Kind == "scalar" || q.Kind == "string" {
		if r.Intn(3) > 0 {
			q.Kind = "matrix"
		}
	}
	q.Start = at + []int64{0, 0, -500, 250, r.Int63n(20000) - 10000}[r.Intn(5)]
	q.End = q.Start
	if q.Kind == "range" {
		q.Step = []int64{1000, 5000, 60000, 700, 10000, 0, 1, -1000}[r.Intn(8)]
		q.End += q.Step*int64(r.Intn(15)) + []int64{0, 0, 300, -300}[r.Intn(4)]
		if r.Intn(20) == 0 {
			q.End = q.Start + 400000000
		}
	}
	if q.Kind == "scalar" {
		q.Scalar = rnd(r, "2.5", "7", "-1.25")
		return q
	}
	if q.Kind == "string" {
		return q
	}
	n := 1
	if q.Kind != "matrix" && r.Intn(3) == 0 {
		n = 2 + r.Intn(2)
	}
	for ; n > 0; n-- {
		s := selector{Sources: []matcher{{"", "is", subset(r, srcs, 2)}}}
		switch r.Intn(12) {
		case 0:
			s.Sources = nil
		case 1:
			s.Sources = []matcher{{"", "not", subset(r, srcs, 3)}}
		case 2, 3:
			s.Sources = append(s.Sources, matcher{"", rnd(r, "is", "not"), subset(r, srcs, 2)})
		}
		s.Names = []matcher{{"", "is", []string{rnd(r, "m", "m", "n", "o")}}}
		switch r.Intn(8) {
		case 0:
			s.Names = []matcher{{"", rnd(r, "is", "not"), subset(r, []string{"m", "n", "o"}, 2)}}
		case 1:
			s.Names = append(s.Names, matcher{"", "is", []string{"m", "n"}})
		}
		for k := r.Intn(3); k > 0; k-- {
			s.Matchers = append(s.Matchers, matcher{rnd(r, "k", "k", "j", "instance_id"), rnd(r, "is", "not"), subset(r, append([]string{""}, vals...), 2)})
		}
		if q.Kind == "matrix" {
			s.Range = []int64{1000, 10000, 30000, 300000, 4000, 60000}[r.Intn(6)]
		}
		if r.Intn(4) == 0 {
			s.Offset = []int64{1000, 7000, 60000, 2000}[r.Intn(4)]
		}
		q.Sels = append(q.Sels, s)
	}
	return q
}

func queryStorm(name string, k int) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		srcs, vals := []string{"a", "b", "c"}, []string{"v", "w", "u", "0"}
		x := newStage(r, srcs, vals)
		now := r.Intn(4) == 0
		at := int64(1000 * (r.Intn(2000) + 1000))
		if now {
			x.base = time.Now().UnixNano() / 1e9 * 1000
			at = 0
		}
		var ss []sample
		for i, n := 0, 5+r.Intn(20); i < n; i++ {
			s := sample{src: srcs[r.Intn(3)], name: rnd(r, "m", "m", "n", "o"), tags: []R{}, v: fmt.Sprintf("v%d", i)}
			if i > 0 && r.Intn(3) == 0 { // the same series again
				o := ss[r.Intn(i)]
				s.src, s.inst, s.name, s.tags = o.src, o.inst, o.name, o.tags
				if r.Intn(3) == 0 {
					s.name = rnd(r, "m", "n", "o")
				}
			} else {
				if r.Intn(2) == 0 {
					s.inst = rnd(r, "0", "v")
				}
				for _, l := range []string{"k", "j", "z", "source_id", "instance_id"} {
					if r.Intn(3) == 0 {
						s.tags = append(s.tags, R{"k": l, "v": vals[r.Intn(len(vals))]})
					}
				}
			}
			s.t = at - []int64{r.Int63n(30000), r.Int63n(3000), 300000 + r.Int63n(4000) - 2000, 1000 * r.Int63n(20), r.Int63n(400000), -r.Int63n(2000)}[r.Intn(6)]
			if now {
				s.t = at - []int64{5000 + r.Int63n(200000), 10000, 330000 + r.Int63n(10000)}[r.Intn(3)]
			}
			ss = append(ss, s)
		}
		if r.Intn(2) == 0 { // series whose labels look the same when joined
			o := ss[r.Intn(len(ss))]
			for i, tags := range [][]R{{{"k": "j", "v": "u"}}, {{"k": "j", "v": "v"}, {"k": "k", "v": "w"}}} {
				s := o
				s.tags, s.v = tags, fmt.Sprintf("v%d", len(ss))
				if !now {
					s.t -= int64(i) * 1500
				}
				ss = append(ss, s)
			}
		}
		sort.SliceStable(ss, func(i, j int) bool { return ss[i].t < ss[j].t })
		broken := []string{}
		if r.Intn(3) == 0 {
			broken = append(broken, srcs[r.Intn(3)])
		}
		x.put(e, ss, broken)
		p := newPromQL(x)
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			q, rs := randomQuery(r, srcs, vals, at), rand.New(rand.NewSource(r.Int63()))
			inst := now && (q.Kind == "instant" || q.Kind == "scalar")
			if now && !inst {
				q.Kind = "string"
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.ask(e, rs, p, q, inst)
			}()
		}
		wg.Wait()
	}
}

// hanging: a source that gives no answer.
func hanging(name string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		x := newStage(r, []string{"a", "b"}, []string{"v", "w", "0"})
		x.hang = true
		x.put(e, []sample{{src: "a", name: "m", tags: []R{}, t: 5000, v: "v1"}, {src: "b", name: "m", tags: []R{}, t: 6000, v: "v2"}}, []string{"b"})
		is := []matcher{{"", "is", []string{"m"}}}
		x.ask(e, r, newPromQL(x), query{Parses: true, Kind: "instant", Scalar: "-", Start: 8000, End: 8000, Sels: []selector{{Names: is, Sources: []matcher{{"", "is", []string{"a", "b"}}}}}}, false)
	}
}
