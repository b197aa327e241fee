// Driver for the JSON form of query results.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtj"
	"code.cloudfoundry.org/log-cache/pkg/marshaler"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
)

type R = vt.R

var (
	fb     = &runtime.JSONPb{OrigName: true, EmitDefaults: true}
	shared = marshaler.NewPromqlMarshaler(fb)
)

type shape struct{ labels, points int }

func shapes(o R) []shape {
	var res []shape
	l, _ := o["rows"].([]interface{})
	for _, x := range l {
		m := x.(map[string]interface{})
		res = append(res, shape{vt.I(m, "labels"), vt.I(m, "points")})
	}
	return res
}

var badTimes = []string{"", "abc", "1,5", "1.2.3", "12:30", "0x", "--1", "NaN", "Inf", "-Inf", "1 2"}

// build makes a result of that shape; one of its times is no number, if bad.
func build(r *rand.Rand, kind string, range_ bool, ss []shape, bad bool) proto.Message {
	n, k := 0, 0
	for _, s := range ss {
		n += s.points
	}
	at := -1
	if bad {
		at = r.Intn(n)
	}
	pt := func() *logcache_v1.PromQL_Point {
		p := &logcache_v1.PromQL_Point{Time: vtj.TimeText(r, vtj.RandTime(r)), Value: vtj.RandValue(r)}
		if k == at {
			p.Time = badTimes[r.Intn(len(badTimes))]
		}
		k++
		return p
	}
	lab := func(n int) map[string]string {
		if n == 0 && r.Intn(2) == 0 {
			return nil
		}
		return vtj.RandLabels(r, n)
	}
	var m *logcache_v1.PromQL_Matrix
	if len(ss) > 0 || r.Intn(2) == 0 {
		m = &logcache_v1.PromQL_Matrix{}
	}
	switch kind {
	case "scalar":
		p := pt()
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: p.Time, Value: p.Value}}}
	case "vector":
		v := &logcache_v1.PromQL_Vector{}
		for _, s := range ss {
			v.Samples = append(v.Samples, &logcache_v1.PromQL_Sample{Metric: lab(s.labels), Point: pt()})
		}
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: v}}
	}
	for _, s := range ss {
		x := &logcache_v1.PromQL_Series{Metric: lab(s.labels)}
		for i := 0; i < s.points; i++ {
			x.Points = append(x.Points, pt())
		}
		m.Series = append(m.Series, x)
	}
	if range_ {
		return &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: m}}
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: m}}
}

func encode(e *vt.Episode, r *rand.Rand, o R) {
	bad := vt.B(o, "badtime")
	v := build(r, vt.S(o, "kind"), vt.B(o, "range"), shapes(o), bad)
	in := vtj.Result(v)
	var b []byte
	var err error
	if vt.S(o, "api") == "marshal" {
		b, err = shared.Marshal(v)
	} else {
		var w bytes.Buffer
		err = shared.NewEncoder(&w).Encode(v)
		b = w.Bytes()
	}
	ev := R{"op": "enc", "in": in, "times": !bad, "ok": err == nil, "lines": bytes.Count(b, []byte("\n"))}
	if err == nil {
		ev["doc"] = vtj.Doc(b)
	} else {
		ev["doc"] = R{"status": "", "type": "", "rows": []vtj.Row{}}
	}
	e.Log(ev)
}

// render spells a document, malformed at one place.
func render(r *rand.Rand, kind string, ss []shape, bad string) (string, R) {
	n, k := 0, 0
	for _, s := range ss {
		n += s.points
	}
	at := -1
	switch bad {
	case "len0", "len1", "len3", "timestr", "timebool", "timehuge", "valnum", "valjunk", "valempty", "valhuge", "valnull", "notpoint":
		at = r.Intn(n)
	}
	sp := func() string { return []string{"", "", "", " ", "\n", "\t "}[r.Intn(6)] }
	str := func(s string) string {
		b, _ := json.Marshal(s)
		return string(b)
	}
	pt := func() (string, R) {
		ms, v := vtj.RandTime(r), vtj.RandValue(r)
		t := vtj.TimeText(r, ms)
		if r.Intn(6) == 0 {
			t = fmt.Sprintf("%de-3", ms)
		}
		vs := strconv.FormatFloat(v, "fge"[r.Intn(3)], -1, 64)
		txt := fmt.Sprintf("[%s%s%s,%s%s]", sp(), t, sp(), sp(), str(vs))
		if k == at {
			txt = map[string]string{
				"len0": "[]", "len1": "[" + t + "]", "len3": "[" + t + `,"1","2"]`, "timestr": `["` + t + `","1"]`, "timebool": `[true,"1"]`,
				"timehuge": `[1e999,"1"]`, "valnum": "[" + t + ",1]", "valjunk": "[" + t + `,"one"]`, "valempty": "[" + t + `,""]`, "valhuge": "[" + t + `,"1e999"]`,
				"valnull": "[" + t + ",null]", "notpoint": `{"t":1}`,
			}[bad]
		}
		k++
		return txt, R{"t": vtj.Time(t), "v": vtj.Bits(v)}
	}
	rows := []vtj.Row{}
	var js []string
	for _, s := range ss {
		m := vtj.RandLabels(r, s.labels)
		row := vtj.Row{Metric: vtj.Labels(m), Values: []R{}}
		var ps []string
		for i := 0; i < s.points; i++ {
			t, p := pt()
			ps = append(ps, t)
			row.Values = append(row.Values, p)
		}
		mj, _ := json.Marshal(m)
		var v string
		switch kind {
		case "scalar":
			js = append(js, ps[0])
			rows = append(rows, row)
			continue
		case "vector":
			v = `"value":` + sp() + ps[0]
		default:
			v = `"values":[` + strings.Join(ps, ","+sp()) + "]"
		}
		x := `"metric":` + string(mj) + "," + v
		if r.Intn(2) == 0 {
			x = v + "," + `"metric":` + string(mj)
		}
		js = append(js, "{"+sp()+x+sp()+"}")
		rows = append(rows, row)
	}
	res := "[" + strings.Join(js, ",") + "]"
	if kind == "scalar" {
		res = js[0]
	}
	ty := kind
	switch bad {
	case "type":
		ty = []string{"string", "Matrix", "streams", "vector "}[r.Intn(4)]
	case "resultobj":
		res = []string{`{"a":1}`, `"x"`, "3", "true"}[r.Intn(4)]
	}
	data := []string{`"resultType":` + sp() + str(ty), `"result":` + sp() + res}
	switch bad {
	case "notype":
		data = data[1:]
	case "noresult":
		data = data[:1]
	}
	if len(data) == 2 && r.Intn(2) == 0 {
		data[0], data[1] = data[1], data[0]
	}
	d := "{" + strings.Join(data, ","+sp()) + "}"
	top := []string{`"status":"success"`, `"data":` + d}
	if r.Intn(2) == 0 {
		top[0], top[1] = top[1], top[0]
	}
	s := "{" + strings.Join(top, ",") + "}" + sp()
	switch bad {
	case "nojson":
		s = []string{"", "<html>", "success", "{]", "nope{}"}[r.Intn(5)]
	case "cut":
		s = s[:1+r.Intn(strings.LastIndexByte(s, '}')-1)]
	case "errordoc":
		s = `{"status":"error","errorType":"internal","error":"no"}`
	}
	return s, R{"status": "success", "type": kind, "rows": rows, "bad": bad}
}

func decode(e *vt.Episode, r *rand.Rand, o R) {
	text, doc := render(r, vt.S(o, "kind"), shapes(o), vt.S(o, "bad"))
	var v proto.Message = &logcache_v1.PromQL_InstantQueryResult{}
	if vt.B(o, "range") {
		v = &logcache_v1.PromQL_RangeQueryResult{}
	}
	var err error
	if vt.S(o, "api") == "unmarshal" {
		err = shared.Unmarshal([]byte(text), v)
	} else {
		err = shared.NewDecoder(strings.NewReader(text)).Decode(v)
	}
	e.Log(R{"op": "dec", "doc": doc, "range": vt.B(o, "range"), "ok": err == nil, "out": vtj.Result(v), "text": text})
}

// stream: many results through one encoder, and back through one decoder.
func stream(name string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		var w bytes.Buffer
		enc := shared.NewEncoder(&w)
		range_ := r.Intn(2) == 0
		n := 1 + r.Intn(6)
		for i := 0; i < n; i++ {
			kind := "matrix"
			if !range_ {
				kind = []string{"scalar", "vector", "matrix"}[r.Intn(3)]
			}
			var ss []shape
			for j := r.Intn(4); j > 0; j-- {
				s := shape{r.Intn(4), 1}
				if kind == "matrix" {
					s.points = r.Intn(4)
				}
				ss = append(ss, s)
			}
			if kind == "scalar" {
				ss = []shape{{0, 1}}
			}
			np := 0
			for _, s := range ss {
				np += s.points
			}
			bad := np > 0 && r.Intn(8) == 0
			v := build(r, kind, range_, ss, bad)
			in := vtj.Result(v)
			err := enc.Encode(v)
			e.Log(R{"op": "write", "in": in, "times": !bad, "ok": err == nil})
		}
		dec := shared.NewDecoder(&w)
		for i := 0; i <= n+1; i++ {
			var v proto.Message = &logcache_v1.PromQL_InstantQueryResult{}
			if range_ {
				v = &logcache_v1.PromQL_RangeQueryResult{}
			}
			err := dec.Decode(v)
			if err == io.EOF {
				e.Log(R{"op": "eof"})
				return
			}
			if err != nil {
				e.Log(R{"op": "error " + err.Error()})
				return
			}
			e.Log(R{"op": "read", "out": vtj.Result(v)})
		}
	}
}

type failing struct{ runtime.Marshaler }

func (failing) Marshal(v interface{}) ([]byte, error)   { return nil, errors.New("no") }
func (failing) Unmarshal(b []byte, v interface{}) error { return errors.New("no") }
func (failing) NewEncoder(w io.Writer) runtime.Encoder {
	return runtime.EncoderFunc(func(v interface{}) error { return errors.New("no") })
}
func (failing) NewDecoder(r io.Reader) runtime.Decoder {
	return runtime.DecoderFunc(func(v interface{}) error { return errors.New("no") })
}

// pass: everything else goes through the fallback.
func pass(name string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		log := func(b bool) { e.Log(R{"op": "pass", "same": b}) }
		var v proto.Message
		switch r.Intn(4) {
		case 0:
			m := map[string]*logcache_v1.MetaInfo{}
			for i := r.Intn(4); i > 0; i-- {
				m[fmt.Sprint(r.Intn(9))] = &logcache_v1.MetaInfo{Count: r.Int63(), OldestTimestamp: r.Int63()}
			}
			v = &logcache_v1.MetaResponse{Meta: m}
		case 1:
			var es []*loggregator_v2.Envelope
			for i := r.Intn(4); i > 0; i-- {
				es = append(es, &loggregator_v2.Envelope{Timestamp: r.Int63(), SourceId: "a<b", Tags: map[string]string{"x": "y"}})
			}
			v = &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}}
		case 2:
			v = &logcache_v1.PromQL_InstantQueryRequest{Query: "x", Time: "1"}
		case 3:
			v = &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{{Metric: map[string]string{"a": "b"}}}}
		}
		want, _ := fb.Marshal(v)
		got, err := shared.Marshal(v)
		log(err == nil && string(got) == string(want)+"\n")
		var w1, w2 bytes.Buffer
		e1, e2 := fb.NewEncoder(&w1).Encode(v), shared.NewEncoder(&w2).Encode(v)
		log(e1 == nil && e2 == nil && w1.String() == w2.String())
		u1 := reflect.New(reflect.TypeOf(v).Elem()).Interface().(proto.Message)
		log(shared.Unmarshal(want, u1) == nil && proto.Equal(u1, v))
		u2 := reflect.New(reflect.TypeOf(v).Elem()).Interface().(proto.Message)
		log(shared.NewDecoder(bytes.NewReader(want)).Decode(u2) == nil && proto.Equal(u2, v))
		f := marshaler.NewPromqlMarshaler(failing{})
		_, err = f.Marshal(v)
		log(err != nil)
		log(f.Unmarshal(want, u1) != nil)
		log(f.NewEncoder(&w1).Encode(v) != nil)
		log(f.NewDecoder(bytes.NewReader(want)).Decode(u2) != nil)
		log(shared.ContentType() == "application/json")
		// results never go through the fallback
		q := build(r, "vector", false, []shape{{1, 1}}, false)
		_, err = f.Marshal(q)
		log(err == nil)
	}
}

func main() {
	vt.Open()
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		n, o := fmt.Sprintf("scn-%d", i), s[0]
		ts = append(ts, vt.Task{Name: n, Run: func(e *vt.Episode) {
			r := vt.Rand(n)
			if vt.S(o, "op") == "enc" {
				encode(e, r, o)
			} else {
				decode(e, r, o)
			}
		}})
	}
	for i := 0; i < int(vt.N); i++ {
		n := fmt.Sprintf("stream-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: stream(n)})
		n2 := fmt.Sprintf("pass-%d", i)
		ts = append(ts, vt.Task{Name: n2, Run: pass(n2)})
	}
	vt.RunAll(ts, 8)
	vt.Close()
}
