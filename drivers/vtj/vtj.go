// Package vtj: Prometheus-style JSON documents and query results as the specification sees them.
package vtj

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

type R = vt.R

// Row is one series, sample or scalar: labels and points.
type Row struct {
	Metric [][]string `json:"metric"`
	Values []R        `json:"values"`
}

// Bits names a value exactly.
func Bits(f float64) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	return fmt.Sprintf("%016x", math.Float64bits(f))
}

// Time renders a decimal number of seconds with three digits if it is a whole number of milliseconds.
func Time(s string) string {
	r, ok := new(big.Rat).SetString(s)
	if !ok || strings.ContainsAny(s, "/_xX") {
		return "odd " + s
	}
	ms := new(big.Rat).Mul(r, big.NewRat(1000, 1))
	if !ms.IsInt() {
		return "odd " + s
	}
	return r.FloatString(3)
}

// Labels sorts the labels.
func Labels(m map[string]string) [][]string {
	res := [][]string{}
	for k, v := range m {
		res = append(res, []string{k, v})
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

func row(m map[string]string, ps []*logcache_v1.PromQL_Point) Row {
	r := Row{Metric: Labels(m), Values: []R{}}
	for _, p := range ps {
		r.Values = append(r.Values, R{"t": Time(p.GetTime()), "v": Bits(p.GetValue())})
	}
	return r
}

func matrix(m *logcache_v1.PromQL_Matrix) []Row {
	rs := []Row{}
	for _, s := range m.GetSeries() {
		rs = append(rs, row(s.GetMetric(), s.GetPoints()))
	}
	return rs
}

// Result shows a query result.
func Result(v interface{}) R {
	kind, rs := "none", []Row{}
	switch q := v.(type) {
	case *logcache_v1.PromQL_InstantQueryResult:
		switch q.GetResult().(type) {
		case *logcache_v1.PromQL_InstantQueryResult_Scalar:
			kind = "scalar"
			rs = append(rs, row(nil, []*logcache_v1.PromQL_Point{{Time: q.GetScalar().GetTime(), Value: q.GetScalar().GetValue()}}))
		case *logcache_v1.PromQL_InstantQueryResult_Vector:
			kind = "vector"
			for _, s := range q.GetVector().GetSamples() {
				rs = append(rs, row(s.GetMetric(), []*logcache_v1.PromQL_Point{s.GetPoint()}))
			}
		case *logcache_v1.PromQL_InstantQueryResult_Matrix:
			kind, rs = "matrix", matrix(q.GetMatrix())
		}
	case *logcache_v1.PromQL_RangeQueryResult:
		if _, ok := q.GetResult().(*logcache_v1.PromQL_RangeQueryResult_Matrix); ok {
			kind, rs = "matrix", matrix(q.GetMatrix())
		}
	}
	return R{"kind": kind, "rows": rs}
}

func odd(f string, a ...interface{}) R {
	return R{"status": "odd", "type": fmt.Sprintf(f, a...), "rows": []Row{}}
}

// Doc reads a JSON document strictly: no null, nothing missing, nothing more.
func Doc(b []byte) R {
	if !json.Valid(b) {
		return odd("no JSON")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var top map[string]interface{}
	if d.Decode(&top) != nil {
		return odd("no object")
	}
	data, ok := top["data"].(map[string]interface{})
	if !ok || len(top) != 2 {
		return odd("top level")
	}
	st, _ := top["status"].(string)
	ty, _ := data["resultType"].(string)
	if len(data) != 2 {
		return odd("data")
	}
	arr, ok := data["result"].([]interface{})
	if !ok {
		return odd("result is no array")
	}
	rs := []Row{}
	pt := func(x interface{}) (R, bool) {
		a, ok := x.([]interface{})
		if !ok || len(a) != 2 {
			return nil, false
		}
		n, ok1 := a[0].(json.Number)
		s, ok2 := a[1].(string)
		if !ok1 || !ok2 {
			return nil, false
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return nil, false
		}
		return R{"t": Time(n.String()), "v": Bits(f)}, true
	}
	if ty == "scalar" {
		p, ok := pt(arr)
		if !ok {
			return odd("scalar")
		}
		return R{"status": st, "type": ty, "rows": []Row{{Metric: [][]string{}, Values: []R{p}}}}
	}
	for _, x := range arr {
		o, ok := x.(map[string]interface{})
		if !ok || len(o) != 2 {
			return odd("row")
		}
		mm, ok := o["metric"].(map[string]interface{})
		if !ok {
			return odd("metric is no object")
		}
		m := map[string]string{}
		for k, v := range mm {
			s, ok := v.(string)
			if !ok {
				return odd("label")
			}
			m[k] = s
		}
		r := Row{Metric: Labels(m), Values: []R{}}
		switch ty {
		case "vector":
			p, ok := pt(o["value"])
			if !ok {
				return odd("value")
			}
			r.Values = append(r.Values, p)
		case "matrix":
			vs, ok := o["values"].([]interface{})
			if !ok {
				return odd("values is no array")
			}
			for _, v := range vs {
				p, ok := pt(v)
				if !ok {
					return odd("value")
				}
				r.Values = append(r.Values, p)
			}
		default:
			return odd("type")
		}
		rs = append(rs, r)
	}
	return R{"status": st, "type": ty, "rows": rs}
}

// RandValue picks values that are hard to print.
func RandValue(r *rand.Rand) float64 {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return math.NaN()
	case 4:
		return math.MaxFloat64
	case 5:
		return math.SmallestNonzeroFloat64
	case 6:
		return math.Copysign(0, -1)
	case 7:
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(40)-20))
	case 8:
		return float64(r.Int63())
	case 9:
		return 0.1 + 0.2
	}
	return math.Float64frombits(r.Uint64()&^(0x7ff<<52) | uint64(r.Intn(2046))<<52)
}

// RandLabels makes n distinct labels.
func RandLabels(r *rand.Rand, n int) map[string]string {
	ks := []string{"a", "b-c", "__name__", "ü", "with space", `q"uote`, "<tag>", "back\\slash", "empty"}
	vs := []string{"", "x", "ü\n", `"`, "a&b<c>", "\u2028", "\\"}
	m := map[string]string{}
	for len(m) < n {
		m[ks[r.Intn(len(ks))]] = vs[r.Intn(len(vs))]
	}
	return m
}

// TimeText spells a time of ms milliseconds in some way.
func TimeText(r *rand.Rand, ms int64) string {
	c := big.NewRat(ms, 1000).FloatString(3)
	switch r.Intn(5) {
	case 0:
		return c + "0"
	case 1:
		if ms%1000 == 0 {
			return strconv.FormatInt(ms/1000, 10)
		}
		return strings.TrimRight(c, "0")
	case 2:
		return big.NewRat(ms, 1000).FloatString(6)
	}
	return c
}

// RandTime picks milliseconds.
func RandTime(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0:
		return int64(r.Intn(3000))
	case 1:
		return -int64(r.Intn(100000)) - 1
	case 2:
		return 4102444800000 + r.Int63n(1e12)
	case 3:
		return 1000 * int64(r.Intn(1<<31))
	}
	return 1500000000000 + r.Int63n(1e11)
}
