// Package mux is an offline stand-in for github.com/gorilla/mux: HandleFunc with
// {name} and {name:pattern} variables, path cleaning with a 301 redirect, Vars.
package mux

import (
	"context"
	"net/http"
	"path"
	"regexp"
	"strings"
)

type route struct {
	re    *regexp.Regexp
	names []string
	h     http.Handler
}

// Route is returned by HandleFunc for chaining (unused here).
type Route struct{}

type Router struct{ routes []route }

type ctxKey struct{}

// NewRouter returns a new router instance.
func NewRouter() *Router { return &Router{} }

// Vars returns the route variables for the current request, if any.
func Vars(r *http.Request) map[string]string {
	v, _ := r.Context().Value(ctxKey{}).(map[string]string)
	return v
}

// HandleFunc registers a new route with a matcher for the URL path.
func (r *Router) HandleFunc(p string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Handle(p, http.HandlerFunc(f))
}

// Handle registers a new route with a matcher for the URL path.
func (r *Router) Handle(p string, h http.Handler) *Route {
	var b strings.Builder
	var names []string
	b.WriteString("^")
	for p != "" {
		i := strings.IndexByte(p, '{')
		if i < 0 {
			b.WriteString(regexp.QuoteMeta(p))
			break
		}
		b.WriteString(regexp.QuoteMeta(p[:i]))
		depth, j := 0, i
		for ; j < len(p); j++ {
			if p[j] == '{' {
				depth++
			} else if p[j] == '}' {
				if depth--; depth == 0 {
					break
				}
			}
		}
		name, pat := p[i+1:j], "[^/]+"
		if k := strings.IndexByte(name, ':'); k >= 0 {
			name, pat = name[:k], name[k+1:]
		}
		names = append(names, name)
		b.WriteString("(" + pat + ")")
		p = p[j+1:]
	}
	b.WriteString("$")
	r.routes = append(r.routes, route{regexp.MustCompile(b.String()), names, h})
	return &Route{}
}

func cleanPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] != '/' {
		p = "/" + p
	}
	np := path.Clean(p)
	if p[len(p)-1] == '/' && np != "/" {
		np += "/"
	}
	return np
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if p := cleanPath(req.URL.Path); p != req.URL.Path {
		u := *req.URL
		u.Path = p
		w.Header().Set("Location", u.String())
		w.WriteHeader(http.StatusMovedPermanently)
		return
	}
	for _, rt := range r.routes {
		m := rt.re.FindStringSubmatch(req.URL.Path)
		if m == nil {
			continue
		}
		vars := map[string]string{}
		for i, n := range rt.names {
			vars[n] = m[i+1]
		}
		rt.h.ServeHTTP(w, req.WithContext(context.WithValue(req.Context(), ctxKey{}, vars)))
		return
	}
	http.NotFound(w, req)
}
