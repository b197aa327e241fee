// Driver for the PromQL side: what queries name, how they are rewritten, how
// times are read, and what queries answer.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtq"
)

type R = vt.R

func rnd(r *rand.Rand, vs ...string) string { return vs[r.Intn(len(vs))] }

// ---------------------------------------------------------------- names of sources

var odd = []string{"8e0c2a1b-1111-4000-8000-00000000000%d", "app.%d", "source id %d", "ü%d", "p/q%d", "%%%d", "a\"b%d", "doppler-%d", "%d", "x%d=y&z", "a\\b%d", "a+%d*", "^%d$", "n\n%d", "o'%d", "#%d"}

// names makes up sources for words.  A list of sources is written as a regular
// expression, so their names can hold no bar and must be fit for one.
func names(r *rand.Rand, words []string) *vtq.Words {
	x := &vtq.Words{Word: map[string]string{}, Back: map[string]string{"": "", "!=": "!=", "!~": "!~"}}
	plain := r.Intn(2) == 0
	for i, w := range words {
		s := fmt.Sprintf(odd[r.Intn(len(odd))], i)
		if plain {
			s = fmt.Sprintf(odd[r.Intn(2)], i)
		}
		if i > 0 && r.Intn(3) == 0 {
			s = x.Word[words[i-1]] + rnd(r, "x", ".", "-1", "-", "0")
		}
		for x.Back[s] != "" {
			s += "y"
		}
		x.Word[w], x.Back[s] = s, w
	}
	return x
}

func strs(v interface{}) []string {
	out := []string{}
	for _, s := range v.([]interface{}) {
		out = append(out, s.(string))
	}
	return out
}

func sets(v interface{}) [][]R {
	var sels [][]R
	for _, s := range v.([]interface{}) {
		sel := []R{}
		for _, m := range s.([]interface{}) {
			sel = append(sel, m.(map[string]interface{}))
		}
		sels = append(sels, sel)
	}
	return sels
}

func askIds(e *vt.Episode, r *rand.Rand, x *vtq.Words, text string, to map[string][]string) {
	q := x.Parse(text)
	got, err := promql.ExtractSourceIds(text)
	ids := []string{}
	for _, s := range got {
		ids = append(ids, x.W(s))
	}
	e.Log(R{"op": "extract", "text": text, "q": q, "err": err != nil, "ids": ids})

	in, copied := map[string][]string{}, map[string][]string{}
	ms := []R{}
	for w, vs := range to {
		// room to append, as real lists have
		l := make([]string, 0, len(vs)+3)
		for _, v := range vs {
			l = append(l, x.Word[v])
		}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		in[x.Word[w]], copied[x.Word[w]] = l, append([]string{}, l...)
		ms = append(ms, R{"k": w, "v": vs})
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i]["k"].(string) < ms[j]["k"].(string) })
	text2, err := promql.ReplaceSourceIdSets(text, in)
	same := fmt.Sprint(in) == fmt.Sprint(copied)
	rec := R{"op": "replace", "text": text2, "q": q, "map": ms, "err": err != nil, "same": same, "q2": R{"parses": false, "skel": "", "sels": [][]R{}}}
	if err == nil {
		rec["q2"] = x.Parse(text2)
	}
	e.Log(rec)
}

func idScenario(name string, ops []R) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		x := names(r, []string{"a", "b", "n", "x"})
		q := ops[0]["q"].(map[string]interface{})
		to := map[string][]string{}
		for k, v := range ops[0]["map"].(map[string]interface{}) {
			to[k] = strs(v)
		}
		askIds(e, r, x, x.Render(r, sets(q["sels"]), q["parses"].(bool)), to)
	}
}

func idStorm(name string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		words := []string{"a", "b", "c", "d", "n", "m"}
		x := names(r, words)
		if r.Intn(2) == 0 { // the source without a name
			words = append(words, "")
			x.Word[""] = ""
		}
		for i := 0; i < 30; i++ {
			var sels [][]R
			for k := r.Intn(5); k > 0; k-- {
				sel := []R{}
				for j := r.Intn(4); j > 0; j-- {
					var vs []interface{}
					for n := 1 + r.Intn(4); n > 0; n-- {
						vs = append(vs, words[r.Intn(len(words))])
					}
					sel = append(sel, R{"kind": rnd(r, "is", "is", "is", "not"), "vals": vs})
				}
				sels = append(sels, sel)
			}
			to := map[string][]string{}
			for _, w := range words {
				to[w] = []string{}
				for _, v := range words {
					if r.Intn(3) == 0 {
						to[w] = append(to[w], v)
					}
				}
			}
			askIds(e, r, x, x.Render(r, sels, r.Intn(10) > 0), to)
		}
	}
}

// ---------------------------------------------------------------- times

// limbs: k * 100000 + s seconds and n nanoseconds.
func limbs(sec, ns int64) R {
	k := sec / 100000
	if sec%100000 < 0 {
		k--
	}
	return R{"k": k, "s": sec - k*100000, "n": ns}
}

func durLimbs(d time.Duration) R {
	s, n := int64(d)/1e9, int64(d)%1e9
	if n < 0 {
		s, n = s-1, n+1e9
	}
	return limbs(s, n)
}

// decimal writes sec seconds and ns nanoseconds as a number.
func decimal(r *rand.Rand, sec, ns int64) string {
	v := new(big.Int).Mul(big.NewInt(sec), big.NewInt(1e9))
	v.Add(v, big.NewInt(ns))
	neg := v.Sign() < 0
	v.Abs(v)
	s := v.String()
	for len(s) < 10 {
		s = "0" + s
	}
	i, f := s[:len(s)-9], strings.TrimRight(s[len(s)-9:], "0")
	e := ""
	if r.Intn(4) == 0 && len(i) > 3 {
		i, f, e = i[:len(i)-3], i[len(i)-3:]+f, rnd(r, "e3", "E3", "e+3", "e+03")
	}
	if r.Intn(4) == 0 {
		f += "000"
	}
	t := i
	if f != "" {
		t += "." + f
	}
	if r.Intn(8) == 0 {
		t = "0" + t
	}
	if neg {
		return "-" + t + e
	}
	return rnd(r, "", "", "", "+") + t + e
}

func instant(r *rand.Rand) (int64, int64) {
	ns := []int64{0, 0, 123000000, 999999999, 1, r.Int63n(1e9)}[r.Intn(6)]
	switch r.Intn(8) {
	case 0:
		return r.Int63n(100), ns
	case 1:
		return -r.Int63n(2e9), ns
	case 2: // around what fits
		return 9223372036 + []int64{-100000, -5, -2, 0, 2, 5, 1000, 1e6}[r.Intn(8)], ns
	case 3:
		return -9223372036 - []int64{-100000, -5, -2, 0, 2, 5, 1000, 1e6}[r.Intn(8)], ns
	case 4:
		return []int64{1e10, 1e11, 5e12, 1.8e14, -1e11}[r.Intn(5)], ns
	}
	return 1500000000 + r.Int63n(2e8), ns
}

var bad = []string{"", "abc", "NaN", "nan", "+NaN", "-Inf", "Inf", "+inf", "infinity", "1e300", "-1e300", "1e19", "5x", "1 ", " 1", "1,5", "1s1", "m", "2017-13-01T00:00:00Z", "2017-07-14 02:40:00", "2017-07-14T02:40:00", "--1", "1.5m", "0x", "m5", "5 m", "-5m", "5mm", "9223372037e0s"}

func times(name string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		for i := 0; i < 60; i++ {
			var text string
			var p R
			switch r.Intn(5) {
			case 0, 1:
				s, n := instant(r)
				text, p = decimal(r, s, n), R{"form": "unix", "v": limbs(s, n)}
			case 2:
				s, n := instant(r)
				if s > 2e11 { // years have four digits
					s = 2e11
				}
				if s < -6e10 {
					s = -6e10
				}
				z := time.FixedZone("", []int{0, 3600, -5*3600 - 1800, 14 * 3600}[r.Intn(4)])
				text, p = time.Unix(s, n).In(z).Format(time.RFC3339Nano), R{"form": "rfc", "v": limbs(s, n)}
			case 3:
				u := rnd(r, "ms", "s", "m", "h", "d", "w", "y")
				max := map[string]int{"ms": 20000, "s": 20000, "m": 20000, "h": 20000, "d": 20000, "w": 10000, "y": 290}[u]
				c := []int{0, 1, 5, r.Intn(100), r.Intn(max + 1), max}[r.Intn(6)]
				text, p = strconv.Itoa(c)+u, R{"form": "dur", "c": c, "unit": u}
				if r.Intn(6) == 0 {
					text = "0" + text
				}
			default:
				text, p = bad[r.Intn(len(bad))], R{"form": "bad"}
			}
			zero := R{"k": 0, "s": 0, "n": 0}
			rec := R{"op": "parse", "text": text, "p": p, "ok": false, "v": zero}
			var err error
			var v R
			switch rec["what"] = rnd(r, "time", "time", "step", "step", "duration"); rec["what"] {
			case "time":
				var t time.Time
				t, err = promql.ParseTime(text)
				v = limbs(t.Unix(), int64(t.Nanosecond()))
			case "step":
				var d time.Duration
				d, err = promql.ParseStep(text)
				v = durLimbs(d)
			default:
				var d time.Duration
				d, err = promql.ParseDuration(text)
				v = durLimbs(d)
			}
			if err == nil {
				rec["ok"], rec["v"] = true, v
			}
			e.Log(rec)
		}
	}
}

func main() {
	vt.Open()
	var ts []vt.Task
	switch vt.Mode {
	case "ids":
		for i, sc := range vt.Scenarios() {
			n := fmt.Sprintf("scn-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: idScenario(n, sc)})
		}
		for i := 0; i < int(vt.N); i++ {
			n := fmt.Sprintf("ids-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: idStorm(n)})
			n = fmt.Sprintf("times-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: times(n)})
		}
	case "queries":
		for i, sc := range vt.Scenarios() {
			n := fmt.Sprintf("scn-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: queryScenario(n, sc)})
		}
		for i := 0; i < int(vt.N); i++ {
			n := fmt.Sprintf("queries-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: queryStorm(n, 25)})
		}
		if vt.N > 0 {
			ts = append(ts, vt.Task{Name: "hanging", Run: hanging("hanging")})
		}
	}
	vt.RunAll(ts, 8)
	vt.Close()
}
