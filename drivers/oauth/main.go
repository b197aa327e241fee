// Driver for the OAuth2 HTTP client.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/url"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/pkg/client"
)

type R = vt.R

type body struct {
	*bytes.Reader
	closed *int32
}

func (b body) Close() error {
	if b.closed != nil {
		atomic.AddInt32(b.closed, -1)
	}
	return nil
}

// srv is the inner HTTP client.
type srv struct {
	e    *vt.Episode
	mu   sync.Mutex
	ntok int
	open int32 // token answers not closed yet
	user bool
	tok  func() string
	api  func() int
	nap  func()
	raw  map[int]*http.Response
}

const (
	cid, csec = "the client", "s3cr&t=?"
	uname, pw = "me@x", "p:w/ü"
)

func (s *srv) good(req *http.Request) bool {
	b, err := ioutil.ReadAll(req.Body)
	if err != nil {
		return false
	}
	v, err := url.ParseQuery(string(b))
	if err != nil || req.Method != "POST" || req.URL.Path != "/oauth/token" || req.URL.Host != "uaa.example:8443" || req.URL.Scheme != "https" ||
		req.Header.Get("Content-Type") != "application/x-www-form-urlencoded" || req.Header.Get("Authorization") != "" {
		return false
	}
	one := func(k, want string) bool { return len(v[k]) == 1 && v[k][0] == want }
	if s.user {
		return one("client_id", cid) && one("client_secret", csec) && one("grant_type", "password") && one("username", uname) && one("password", pw)
	}
	p, _ := req.URL.User.Password()
	return one("client_id", cid) && one("grant_type", "client_credentials") && req.URL.User.Username() == cid && p == csec
}

func (s *srv) Do(req *http.Request) (*http.Response, error) {
	if req.URL.Host == "uaa.example:8443" {
		s.e.Log(R{"op": "tokreq", "good": s.good(req)})
		s.nap()
		s.mu.Lock()
		what := s.tok()
		s.ntok++
		n := s.ntok
		s.mu.Unlock()
		resp := func(code int, b string) *http.Response {
			atomic.AddInt32(&s.open, 1)
			return &http.Response{StatusCode: code, Body: body{bytes.NewReader([]byte(b)), &s.open}, Header: http.Header{}}
		}
		t := ""
		var r *http.Response
		var err error
		switch what {
		case "ok":
			t = fmt.Sprintf("bearer T%d", n)
			r = resp(200, fmt.Sprintf(`{"token_type":"bearer","access_token":"T%d","expires_in":1}`, n))
		case "500":
			r = resp([]int{500, 401, 404, 201}[n%4], `{"token_type":"bearer","access_token":"bad"}`)
		case "json":
			r = resp(200, []string{``, `{"token_type":`, `[]`, `<html>`}[n%4])
		default:
			err = errors.New("no route")
		}
		s.e.Log(R{"op": "tokresp", "tok": t})
		return r, err
	}
	i, _ := strconv.Atoi(req.Header.Get("X-Id"))
	auth := ""
	if v := req.Header["Authorization"]; len(v) == 1 {
		auth = v[0]
	}
	s.e.Log(R{"op": "apireq", "i": i, "auth": auth, "intact": req.URL.String() == fmt.Sprintf("https://api.example/x/%d?a=b", i) && req.Method == "GET" && req.Context().Value(k{}) == i})
	s.nap()
	s.mu.Lock()
	st := s.api()
	s.mu.Unlock()
	s.e.Log(R{"op": "apiresp", "i": i, "status": st})
	if st == 0 {
		return nil, errors.New("broken pipe")
	}
	r := &http.Response{StatusCode: st, Body: body{bytes.NewReader([]byte("b")), nil}, Header: http.Header{}}
	s.mu.Lock()
	s.raw[i] = r
	s.mu.Unlock()
	return r, nil
}

type k struct{}

func (s *srv) client() *client.Oauth2HTTPClient {
	s.raw = map[int]*http.Response{}
	opts := []client.Oauth2Option{client.WithOauth2HTTPClient(s)}
	if s.user {
		opts = append(opts, client.WithOauth2HTTPUser(uname, pw))
	}
	return client.NewOauth2HTTPClient("https://uaa.example:8443", cid, csec, opts...)
}

func (s *srv) call(c *client.Oauth2HTTPClient, i int, pre bool) {
	req, _ := http.NewRequest("GET", fmt.Sprintf("https://api.example/x/%d?a=b", i), nil)
	req = req.WithContext(context.WithValue(context.Background(), k{}, i))
	req.Header.Set("X-Id", strconv.Itoa(i))
	if pre {
		req.Header.Set("Authorization", "P")
	}
	s.e.Log(R{"op": "do", "i": i, "pre": pre})
	resp, err := c.Do(req)
	s.mu.Lock()
	same := err != nil && resp == nil || err == nil && resp == s.raw[i]
	s.mu.Unlock()
	// other calls may have a token answer open while several run
	s.e.Log(R{"op": "ret", "i": i, "err": err != nil, "same": same, "closed": s.e.Cfg["conc"] == true || atomic.LoadInt32(&s.open) == 0})
}

func scn(ops []R, user bool) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		e.Cfg = R{"conc": false}
		s := &srv{e: e, user: user, nap: func() {}}
		pos := 0
		take := func(op string) R {
			for pos < len(ops) {
				r := ops[pos]
				pos++
				if vt.S(r, "op") == op {
					return r
				}
			}
			return nil
		}
		s.tok = func() string {
			if r := take("tok"); r != nil {
				return vt.S(r, "r")
			}
			return "ok"
		}
		s.api = func() int {
			if r := take("api"); r != nil {
				return vt.I(r, "s")
			}
			return 200
		}
		c := s.client()
		for i := 1; ; i++ {
			r := take("do")
			if r == nil {
				return
			}
			s.call(c, i, vt.B(r, "pre"))
		}
	}
}

func conc(name string) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		r := vt.Rand(name)
		e.Cfg = R{"conc": true}
		var rmu sync.Mutex
		rnd := func(n int) int { rmu.Lock(); defer rmu.Unlock(); return r.Intn(n) }
		s := &srv{e: e, user: r.Intn(2) == 0}
		pbad := r.Intn(4)
		s.tok = func() string {
			if rnd(10) == 0 {
				return []string{"500", "json", "net"}[rnd(3)]
			}
			return "ok"
		}
		s.api = func() int {
			if rnd(4) < pbad {
				return []int{199, 300, 401, 401, 500, 0}[rnd(6)]
			}
			return []int{200, 204, 299}[rnd(3)]
		}
		s.nap = func() {
			if n := rnd(4); n > 0 {
				time.Sleep(time.Duration(n*rnd(50)) * time.Microsecond)
			}
		}
		c := s.client()
		var wg sync.WaitGroup
		g, per := 2+r.Intn(2), 2+r.Intn(3)
		for j := 0; j < g; j++ {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				q := rand.New(rand.NewSource(int64(j) + vt.Seed))
				for x := 0; x < per; x++ {
					s.call(c, j*100+x+1, q.Intn(8) == 0)
				}
			}(j)
		}
		wg.Wait()
	}
}

func main() {
	vt.Open()
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		ts = append(ts, vt.Task{Name: fmt.Sprintf("scn-%d", i), Run: scn(s, i%2 == 0)})
	}
	for i := int64(0); i < vt.N; i++ {
		n := fmt.Sprintf("conc-%d", i)
		ts = append(ts, vt.Task{Name: n, Run: conc(n)})
	}
	vt.RunAll(ts, 16)
	vt.Close()
}
