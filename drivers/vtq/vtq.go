// Package vtq writes PromQL queries from what a specification says about their
// selectors, and takes queries apart again.
package vtq

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
)

type R = vt.R

// Words are the sources a specification speaks of and their names in the code.
type Words struct{ Word, Back map[string]string }

// W is the word for a source.
func (x *Words) W(s string) string {
	if w, ok := x.Back[s]; ok {
		return w
	}
	return "?" + s
}

func rnd(r *rand.Rand, vs ...string) string { return vs[r.Intn(len(vs))] }

// Parse takes a query apart: its source_id matchers in order, and all the rest.
func (x *Words) Parse(text string) R {
	expr, err := promql.ParseExpr(text)
	if err != nil {
		return R{"parses": false, "skel": "", "sels": [][]R{}, "text": text, "error": err.Error()}
	}
	sels := [][]R{}
	take := func(ms []*labels.Matcher) {
		sel := []R{}
		defer func() { sels = append(sels, sel) }()
		for _, m := range ms {
			if m.Name == "__name__" && (m.Type == labels.MatchEqual || m.Type == labels.MatchRegexp) {
				// the name, however it is given
				m.Name, m.Type, m.Value = "named", labels.MatchEqual, strings.Replace(m.Value, "\\", "", -1)
			}
			if m.Name != "source_id" {
				continue
			}
			kind, vals := "is", []string{}
			raw := []string{m.Value}
			if m.Type == labels.MatchRegexp || m.Type == labels.MatchNotRegexp {
				raw = strings.Split(m.Value, "|")
			}
			if m.Type == labels.MatchNotEqual || m.Type == labels.MatchNotRegexp {
				kind = "not" // how it says so must not change either
				raw = append(raw, m.Type.String())
			}
			for _, v := range raw {
				vals = append(vals, x.W(v))
			}
			sel = append(sel, R{"kind": kind, "vals": vals})
			m.Type, m.Value = labels.MatchEqual, "#"
		}
	}
	promql.Inspect(expr, func(n promql.Node, _ []promql.Node) error {
		switch v := n.(type) {
		case *promql.VectorSelector:
			take(v.LabelMatchers)
			v.Name = ""
		case *promql.MatrixSelector:
			take(v.LabelMatchers)
			v.Name = ""
		}
		return nil
	})
	return R{"parses": true, "skel": expr.String(), "sels": sels}
}

func quote(r *rand.Rand, s string) string {
	if r.Intn(4) == 0 && !strings.ContainsAny(s, "'\\\n") {
		return "'" + s + "'"
	}
	return strconv.Quote(s)
}

// Render writes a query with these source_id matchers.
func (x *Words) Render(r *rand.Rand, sels [][]R, parses bool) string {
	if !parses {
		return []string{"", "{", `m{source_id="` + x.Word["a"] + `"`, `m{source_id="` + x.Word["a"] + `"} +`, `m{source_id=~"("}`, `sum(m{source_id="` + x.Word["a"] + `"}, 1)`, "1 +* 2", `{source_id=` + x.Word["b"] + `}`}[r.Intn(8)]
	}
	one := func(s R) string {
		var vs []string
		for _, v := range s["vals"].([]interface{}) {
			vs = append(vs, x.Word[v.(string)])
		}
		r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		op := "=~"
		if len(vs) == 1 && r.Intn(3) > 0 {
			op = "="
		}
		if s["kind"] == "not" {
			op = map[string]string{"=": "!=", "=~": "!~"}[op]
		}
		return "source_id" + []string{"", " "}[r.Intn(2)] + op + []string{"", " "}[r.Intn(2)] + quote(r, strings.Join(vs, "|"))
	}
	// who knows which labels there are: other sources' names may be among their values
	extra := []string{`k="v"`, `instance_id="` + esc(x.Word["a"]) + `"`, `source_idx="` + esc(x.Word["b"]) + `"`, `k!~"x|y"`, `deployment=~"` + esc(x.Word["a"]) + `|p"`, `k=""`}
	var groups [][]string
	for _, s := range sels {
		g := []string{}
		for _, m := range s {
			g = append(g, one(m))
		}
		groups = append(groups, g)
	}
	var fs []string
	for _, g := range groups {
		for i := r.Intn(3); i > 0; i-- {
			g = append(g, extra[r.Intn(len(extra))])
			j := r.Intn(len(g))
			g[j], g[len(g)-1] = g[len(g)-1], g[j]
		}
		sel := []string{"metric", "source_id", "a:b", "cpu_total", "x", "sum"}[r.Intn(21)/4] + "{" + strings.Join(g, ",") + "}"
		if r.Intn(6) == 0 {
			sel = "{" + strings.Join(append(g, `__name__="`+rnd(r, "x", "sum", "a:b")+`"`), ", ") + "}"
		}
		f := []string{"%s", "(%s)", "sum(%s)", "rate(%s[5m])", "sum(rate(%s[1m] offset 1h)) by (source_id, k)", "%s offset 5m", "topk(3, %s)", "%s > bool 5", "-%s", "absent(%s)",
			"avg_over_time(%s[1d])", "max without (k) (%s)", "label_replace(%s, \"a\", \"$1\", \"source_id\", \"(.*)\")", "%s ^ 2", "histogram_quantile(0.9, rate(%s[10m]))",
			"quantile_over_time(0.5, %s[2h])", "max_over_time(rate(%s[1m])[10m:30s])", "count_values(\"v\", %s)"}[r.Intn(18)]
		fs = append(fs, fmt.Sprintf(f, sel))
	}
	if len(fs) == 0 {
		return []string{"1 + 1", "time()", "vector(1)", "-3.5e7"}[r.Intn(4)]
	}
	q := fs[0]
	for _, f := range fs[1:] {
		q += []string{" + ", " / on (source_id) ", " and ", "*", " unless ignoring (k) ", " - on (k) group_left (x) ", " == bool "}[r.Intn(7)] + f
	}
	if r.Intn(5) == 0 {
		q = "  (" + q + " # source_id=\"x\"\n) "
	}
	return q
}

func esc(s string) string { q := strconv.Quote(s); return q[1 : len(q)-1] }
