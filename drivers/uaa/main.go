// Driver for the token reader: real RSA keys and tokens, an identity server that rotates
// its keys, fails and lies, reads one after another and concurrently.
package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	mrand "math/rand"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
)

type R = vt.R

type noMetrics struct{}

func (noMetrics) NewGauge(string, ...metrics.MetricOption) metrics.Gauge { return &vt.Metric{} }

var (
	keys  = map[string]*rsa.PrivateKey{}
	pems  = map[string]string{}
	ecPEM string
)

func mustPEM(pub interface{}) string {
	b, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		vt.Fatal("%s", err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}

func makeKeys() {
	for _, n := range []string{"k1", "k2", "k3", "k4"} {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			vt.Fatal("%s", err)
		}
		keys[n], pems[n] = k, mustPEM(&k.PublicKey)
	}
	e, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		vt.Fatal("%s", err)
	}
	ecPEM = mustPEM(&e.PublicKey)
}

// ---------------------------------------------------------------- the identity server

type pair [2]string

type answer struct {
	kind string
	good []pair
}

func (a answer) ok() bool { return a.kind == "ok" }

type body struct {
	io.Reader
	s      *server
	closed bool
}

func (b *body) Close() error {
	b.s.mu.Lock()
	if !b.closed {
		b.closed = true
		b.s.held--
	}
	b.s.mu.Unlock()
	return nil
}

type failing struct{ r io.Reader }

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

type server struct {
	e      *vt.Episode
	host   string
	mu     sync.Mutex
	ans    answer
	r      *mrand.Rand
	start  time.Time
	asked  int
	answd  int
	held   int
	last   time.Time
	linger time.Duration
}

func (s *server) now() int { return int(time.Since(s.start) / time.Millisecond) }

func (s *server) Do(q *http.Request) (*http.Response, error) {
	s.mu.Lock()
	s.asked++
	f := s.asked
	s.last = time.Now()
	proper := q.Method == "GET" && q.URL.Host == s.host && q.URL.Scheme == "https" && q.URL.Path == "/token_keys" && q.URL.RawQuery == "" &&
		q.Body == nil && q.Header.Get("Authorization") == ""
	s.e.Log(R{"op": "ask", "f": f, "t": s.now(), "proper": proper})
	d := s.linger
	if d > 0 {
		d = time.Duration(s.r.Int63n(int64(d)))
	}
	s.mu.Unlock()
	time.Sleep(d)
	s.mu.Lock()
	defer s.mu.Unlock()
	a := s.ans
	good := []pair{}
	if a.kind != "status" && a.kind != "lost" && a.kind != "json" {
		good = append(good, a.good...)
	}
	s.e.Log(R{"op": "answer", "f": f, "good": good, "ok": a.ok()})
	s.answd++
	if a.kind == "lost" {
		return nil, errors.New("connection refused")
	}
	s.held++
	type key struct {
		Kty   string `json:"kty"`
		Kid   string `json:"kid"`
		Alg   string `json:"alg"`
		Value string `json:"value"`
	}
	var doc struct {
		Keys []key `json:"keys"`
	}
	doc.Keys = []key{}
	for _, p := range a.good {
		doc.Keys = append(doc.Keys, key{"RSA", p[0], "RS256", pems[p[1]]})
	}
	spoil := func(v string) {
		doc.Keys = append(doc.Keys, key{"RSA", []string{"a", "b", "c"}[s.r.Intn(3)], "RS256", v})
		for n := s.r.Intn(2); n > 0; n-- {
			doc.Keys = append(doc.Keys, key{"RSA", "d", "RS256", pems["k3"]})
		}
	}
	switch a.kind {
	case "novalue":
		spoil("")
	case "nopem":
		spoil([]string{"not a key", "-----BEGIN PUBLIC KEY-----", strings.Replace(pems["k1"], "-----END", "-----ENT", 1)}[s.r.Intn(3)])
	case "nokey":
		spoil(string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: []byte("rubbish")})))
	case "notrsa":
		spoil(ecPEM)
	}
	b, _ := json.Marshal(doc)
	status := 200
	var rd io.Reader = bytes.NewReader(b)
	switch a.kind {
	case "status":
		status = []int{500, 401, 404, 503, 302, 201, 204, 429}[s.r.Intn(8)]
	case "json":
		switch s.r.Intn(6) {
		case 0:
			rd = strings.NewReader("garbage")
		case 1:
			rd = strings.NewReader("")
		case 2:
			rd = bytes.NewReader(b[:len(b)-2-s.r.Intn(3)])
		case 3:
			rd = strings.NewReader(`{"keys":"` + "x" + `"}`)
		case 4:
			rd = strings.NewReader(`{"keys":[{"kid":7,"value":"x"}]}`)
		default:
			rd = failing{bytes.NewReader(b[:len(b)/2])}
		}
	}
	return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Header: http.Header{}, Body: &body{Reader: rd, s: s}, Request: q}, nil
}

var answers = map[string]answer{
	"a1": {"ok", []pair{{"a", "k1"}}}, "a2": {"ok", []pair{{"a", "k2"}}}, "a1b2": {"ok", []pair{{"a", "k1"}, {"b", "k2"}}},
	"twice": {"ok", []pair{{"a", "k2"}, {"a", "k1"}}}, "empty": {"ok", nil},
	"b1": {"ok", []pair{{"b", "k1"}}}, "many": {"ok", []pair{{"c", "k4"}, {"", "k1"}, {"b", "k1"}, {"a", "k2"}}},
}

func init() {
	for _, k := range []string{"novalue", "nopem", "notrsa", "nokey"} {
		answers[k] = answer{k, []pair{{"b", "k2"}}}
	}
	for _, k := range []string{"status", "lost", "json"} {
		answers[k] = answer{k, []pair{{"a", "k1"}, {"b", "k2"}, {"a", "k3"}}}
	}
}

// ---------------------------------------------------------------- tokens

type token struct {
	text string
	rec  R
	exp  time.Time
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func sign(h R, payload []byte, key *rsa.PrivateKey) string {
	hb, _ := json.Marshal(h)
	in := b64(hb) + "." + b64(payload)
	var sig []byte
	switch {
	case h["alg"] == "HS256":
		m := hmac.New(sha256.New, []byte(pems["k1"]))
		m.Write([]byte(in))
		sig = m.Sum(nil)
	case h["alg"] == "RS512":
		d := sha512.Sum512([]byte(in))
		sig, _ = rsa.SignPKCS1v15(rand.Reader, key, crypto.SHA512, d[:])
	case h["alg"] == "RS384":
		d := sha512.Sum384([]byte(in))
		sig, _ = rsa.SignPKCS1v15(rand.Reader, key, crypto.SHA384, d[:])
	case h["alg"] == "PS256":
		d := sha256.Sum256([]byte(in))
		sig, _ = rsa.SignPSS(rand.Reader, key, crypto.SHA256, d[:], nil)
	case key != nil:
		d := sha256.Sum256([]byte(in))
		sig, _ = rsa.SignPKCS1v15(rand.Reader, key, crypto.SHA256, d[:])
	}
	return in + "." + b64(sig)
}

// make builds a token of the given description.
func make_(r *mrand.Rand, kid, signer, odd string, admin bool) token {
	rec := R{"kid": kid, "signer": signer, "alg": "RS256", "whole": true, "form": "ok", "data": true, "fresh": true, "admin": admin}
	h := R{"alg": "RS256", "kid": kid, "typ": "JWT"}
	scopes := []string{}
	for _, s := range []string{"openid", "cloud_controller.read", "logs.administrator", "doppler.firehose.x", "Logs.Admin", "doppler", "cloud_controller.admin", ""} {
		if r.Intn(3) == 0 {
			scopes = append(scopes, s)
		}
	}
	if admin {
		scopes = append(scopes, []string{"doppler.firehose", "logs.admin"}[r.Intn(2)])
		i := r.Intn(len(scopes))
		scopes[i], scopes[len(scopes)-1] = scopes[len(scopes)-1], scopes[i]
	}
	exp := time.Now().Unix() + []int64{60, 3600, 1000000}[r.Intn(3)]
	claims := R{"exp": exp, "scope": scopes, "sub": fmt.Sprint(r.Int63()), "value": "v"}
	if r.Intn(4) == 0 {
		claims["admin"] = true
	}
	if r.Intn(4) == 0 {
		claims["exp"] = float64(exp) + 0.5
	}
	prefix := []string{"", "bearer ", "Bearer ", "BEARER   ", "bEaReR\t"}[r.Intn(5)]
	key := keys[signer]
	switch odd {
	case "expired":
		rec["fresh"] = false
		switch r.Intn(6) {
		case 0:
			delete(claims, "exp")
		case 1:
			claims["exp"] = 0
		case 2:
			claims["exp"] = -exp
		case 3:
			claims["exp"] = nil
		case 4:
			claims["exp"] = time.Now().Unix() - 1
		default:
			claims["exp"] = time.Now().Unix() - 86400
		}
	case "none":
		h["alg"], rec["alg"], rec["signer"] = "none", "none", ""
		key = nil
	case "hs":
		h["alg"], rec["alg"], rec["signer"] = "HS256", "HS256", ""
	case "alg":
		a := []string{"RS512", "RS384", "PS256", "ES256", "rs256", "RS256 ", ""}[r.Intn(7)]
		h["alg"], rec["alg"] = a, a
	case "nokid":
		rec["form"] = "nokid"
		switch r.Intn(6) {
		case 0:
			delete(h, "kid")
		case 1:
			h["kid"] = nil
		case 2:
			h["kid"] = 1
		case 3:
			h["kid"] = []string{kid}
		case 4:
			h["kid"] = R{"kid": kid}
		default:
			h["kid"] = true
		}
	case "stranger":
		rec["signer"] = "k3"
		key = keys["k3"]
		if r.Intn(2) == 0 {
			h["x5c"], h["jku"] = []string{pems["k3"]}, "https://evil.example.com/token_keys"
		}
	case "nodata":
		rec["data"] = false
		switch r.Intn(5) {
		case 0:
			claims["scope"] = "doppler.firehose"
		case 1:
			claims["exp"] = "tomorrow"
		case 2:
			claims["scope"] = []interface{}{"logs.admin", 1}
		}
	}
	payload, _ := json.Marshal(claims)
	if odd == "nodata" && claims["scope"] != nil {
		if _, ok := claims["scope"].([]string); ok && claims["exp"] != "tomorrow" {
			payload = []byte([]string{"", "rubbish", "[]", string(payload[:len(payload)-1]), `"x"`}[r.Intn(5)])
		}
	}
	t := sign(h, payload, key)
	parts := strings.Split(t, ".")
	switch odd {
	case "tampered":
		rec["whole"] = false
		switch r.Intn(6) {
		case 0:
			claims["scope"] = append(scopes, "doppler.firehose")
			p, _ := json.Marshal(claims)
			parts[1] = b64(p)
		case 1:
			claims["exp"] = exp + 1000
			p, _ := json.Marshal(claims)
			parts[1] = b64(p)
		case 2:
			parts[2] = ""
		case 3:
			s, _ := base64.RawURLEncoding.DecodeString(parts[2])
			s[r.Intn(len(s))] ^= 1 << uint(r.Intn(8))
			parts[2] = b64(s)
		case 4:
			s, _ := base64.RawURLEncoding.DecodeString(parts[2])
			parts[2] = b64(s[:len(s)-1])
		default:
			h["extra"] = r.Int63()
			hb, _ := json.Marshal(h)
			parts[0] = b64(hb)
		}
		t = strings.Join(parts, ".")
	case "broken":
		rec["form"] = "broken"
		switch r.Intn(10) {
		case 0:
			t = ""
			prefix = ""
		case 1:
			t = parts[0] + "." + parts[1]
		case 2:
			t += ".x"
		case 3:
			t = "%%%." + parts[1] + "." + parts[2]
		case 4:
			t = b64([]byte("not json")) + "." + parts[1] + "." + parts[2]
		case 5:
			t = b64([]byte(`{"alg":7,"kid":"a"}`)) + "." + parts[1] + "." + parts[2]
		case 6:
			t = b64([]byte(`{"kid":"a"}`)) + "." + parts[1] + "." + parts[2]
		case 7:
			t = b64([]byte(`{"alg":"RSA-OAEP","enc":"A128GCM","kid":"a"}`)) + ".AA.AA.AA.AA"
		case 8:
			prefix = " bearer "
		default:
			t = ".."
		}
	}
	e := time.Unix(exp, 0)
	return token{prefix + t, rec, e}
}

var tokens = map[string][4]string{
	"a1": {"a", "k1", "", ""}, "a2": {"a", "k2", "", ""}, "b2": {"b", "k2", "", ""}, "b1": {"b", "k1", "", "y"}, "admin": {"a", "k1", "", "y"},
	"expired": {"a", "k1", "expired", ""}, "tampered": {"a", "k1", "tampered", ""}, "none": {"a", "k1", "none", "y"}, "hs": {"a", "k1", "hs", ""},
	"nokid": {"a", "k1", "nokid", ""}, "broken": {"a", "k1", "broken", ""}, "nodata": {"a", "k1", "nodata", ""},
}

func known(r *mrand.Rand, k string) token {
	d := tokens[k]
	return make_(r, d[0], d[1], d[2], d[3] != "")
}

func any(r *mrand.Rand) token {
	odd := ""
	if r.Intn(3) == 0 {
		odd = []string{"expired", "tampered", "none", "hs", "alg", "nokid", "broken", "nodata", "stranger"}[r.Intn(9)]
	}
	return make_(r, []string{"a", "a", "a", "b", "b", "c", ""}[r.Intn(7)], []string{"k1", "k1", "k2", "k2", "k4"}[r.Intn(5)], odd, r.Intn(3) == 0)
}

// ---------------------------------------------------------------- episodes

type world struct {
	e  *vt.Episode
	s  *server
	c  *auth.UAAClient
	w  time.Duration
	n  int
	mu sync.Mutex
}

func newWorld(e *vt.Episode, r *mrand.Rand, w time.Duration) *world {
	host := []string{"uaa.example.com", "uaa.example.com:8443"}[r.Intn(2)]
	s := &server{e: e, host: host, r: mrand.New(mrand.NewSource(r.Int63())), start: time.Now(), ans: answers["a1"]}
	e.Cfg = R{"w": int(w / time.Millisecond)}
	return &world{e: e, s: s, w: w, c: auth.NewUAAClient("https://"+host, s, noMetrics{}, log.New(ioutil.Discard, "", 0), auth.WithMinimumRefreshInterval(w))}
}

func (w *world) set(k string) {
	w.s.mu.Lock()
	w.s.ans = answers[k]
	w.s.mu.Unlock()
}

func (w *world) asked() int {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	return w.s.asked
}

func (w *world) read(t token) bool {
	w.mu.Lock()
	w.n++
	i := w.n
	w.e.Log(R{"op": "read", "i": i, "tok": t.rec, "t": w.s.now()})
	w.mu.Unlock()
	c, err := w.c.Read(t.text)
	ok := err == nil
	same := c == auth.Oauth2ClientContext{}
	if ok {
		same = c.Token == t.text && c.ExpiresAt.Equal(t.exp)
	}
	w.e.Log(R{"op": "verdict", "i": i, "ok": ok, "admin": c.IsAdmin, "same": same, "t": w.s.now()})
	return ok
}

func (w *world) refresh() {
	w.e.Log(R{"op": "refresh"})
	err := w.c.RefreshTokenKeys()
	w.e.Log(R{"op": "refreshed", "err": err != nil, "t": w.s.now()})
}

// rest waits for whatever may still be going on.
func (w *world) rest(expect bool, before int) {
	if expect {
		vt.Eventually(2*time.Second, func() bool { return w.asked() > before })
	}
	if w.asked() == before {
		time.Sleep(3 * time.Millisecond)
	}
	if w.asked() > before || expect {
		vt.Eventually(2*time.Second, func() bool {
			w.s.mu.Lock()
			defer w.s.mu.Unlock()
			return w.s.answd == w.s.asked
		})
		time.Sleep(15 * time.Millisecond)
	}
	w.e.Log(R{"op": "rest"})
}

// one reads a token when nothing else is going on.
func (w *world) one(t token) {
	before := w.asked()
	ok := w.read(t)
	w.s.mu.Lock()
	free := w.s.asked == 0 || time.Since(w.s.last) > w.w+w.w/2
	w.s.mu.Unlock()
	expect := false
	if !ok && free && t.rec["form"] == "ok" && t.rec["alg"] == "RS256" && t.rec["fresh"] == true && t.rec["data"] == true {
		// either the key was unknown and asked for, or the signature did not fit: asked for now
		expect = w.asked() == before
	}
	w.rest(expect, before)
}

func (w *world) end() {
	var held int
	vt.Eventually(2*time.Second, func() bool {
		w.s.mu.Lock()
		defer w.s.mu.Unlock()
		return w.s.held == 0
	})
	w.s.mu.Lock()
	held = w.s.held
	w.s.mu.Unlock()
	w.e.Log(R{"op": "end", "held": held})
}

func scripted(scn []R, r *mrand.Rand) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		waits := false
		for _, o := range scn {
			waits = waits || vt.S(o, "o") == "wait"
		}
		d := []time.Duration{0, time.Hour}[r.Intn(2)]
		if waits {
			d = 200 * time.Millisecond
		}
		w := newWorld(e, r, d)
		for _, o := range scn {
			switch vt.S(o, "o") {
			case "set":
				w.set(vt.S(o, "k"))
			case "wait":
				time.Sleep(d + d/2 + 10*time.Millisecond)
			case "refresh":
				w.refresh()
			case "read":
				w.one(known(r, vt.S(o, "k")))
			}
		}
		w.end()
	}
}

var kinds = []string{"a1", "a2", "a1b2", "twice", "empty", "b1", "many", "status", "lost", "json", "novalue", "nopem", "notrsa", "nokey"}

func random(r *mrand.Rand) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		d := []time.Duration{0, 0, time.Hour, 200 * time.Millisecond}[r.Intn(4)]
		w := newWorld(e, r, d)
		w.set(kinds[r.Intn(7)])
		for n := 6 + r.Intn(10); n > 0; n-- {
			switch k := r.Intn(10); {
			case k < 2:
				w.set(kinds[r.Intn(len(kinds))])
			case k == 2:
				w.refresh()
			case k == 3 && d == 200*time.Millisecond:
				time.Sleep(d + d/2 + 10*time.Millisecond)
			default:
				w.one(any(r))
			}
		}
		w.end()
	}
}

func concurrent(r *mrand.Rand) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		d, par := time.Hour, 4
		if r.Intn(3) == 0 {
			d, par = 0, 2
		}
		w := newWorld(e, r, d)
		w.s.linger = 3 * time.Millisecond
		w.set(kinds[r.Intn(7)])
		if d == 0 && r.Intn(2) == 0 {
			w.refresh()
			w.set(kinds[r.Intn(len(kinds))])
		}
		toks := make([]token, par)
		for i := range toks {
			toks[i] = any(r)
			if r.Intn(2) == 0 {
				toks[i] = known(r, []string{"a1", "b2", "a2", "admin"}[r.Intn(4)])
			}
		}
		rounds := 1
		if d != 0 {
			rounds = 2
		}
		for k := 0; k < rounds; k++ {
			before := w.asked()
			var wg sync.WaitGroup
			for i := range toks {
				t := toks[i]
				pause := time.Duration(0)
				if r.Intn(3) == 0 {
					pause = time.Duration(r.Intn(3000)) * time.Microsecond
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(pause)
					w.read(t)
				}()
			}
			wg.Wait()
			time.Sleep(10 * time.Millisecond)
			w.rest(false, before)
		}
		w.end()
	}
}

// herd lets many callers ask for a refresh at the same instant.
func herd(r *mrand.Rand) func(e *vt.Episode) {
	return func(e *vt.Episode) {
		w := newWorld(e, r, time.Hour)
		w.set([]string{"lost", "a1", "status"}[r.Intn(3)])
		var ready, done sync.WaitGroup
		var gate int32
		direct := r.Intn(2) == 0
		for k := 0; k < 4; k++ {
			t := known(r, "a1")
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				ready.Done()
				for atomic.LoadInt32(&gate) == 0 {
					runtime.Gosched()
				}
				if direct {
					w.c.RefreshTokenKeys()
				} else {
					w.c.Read(t.text)
				}
			}()
		}
		ready.Wait()
		atomic.StoreInt32(&gate, 1)
		done.Wait()
		w.end()
	}
}

func main() {
	vt.Open()
	makeKeys()
	var ts []vt.Task
	if vt.Mode == "herd" {
		for i := int64(0); i < vt.N; i++ {
			n := fmt.Sprintf("herd-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: herd(vt.Rand(n))})
		}
		vt.RunAll(ts, 1)
		vt.Close()
	}
	if vt.Mode == "conc" {
		for i := int64(0); i < vt.N; i++ {
			n := fmt.Sprintf("conc-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: concurrent(vt.Rand(n))})
		}
	} else {
		for i, s := range vt.Scenarios() {
			n := fmt.Sprintf("scn-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: scripted(s, vt.Rand(n))})
		}
		for i := int64(0); i < vt.N; i++ {
			n := fmt.Sprintf("rnd-%d", i)
			ts = append(ts, vt.Task{Name: n, Run: random(vt.Rand(n))})
		}
	}
	vt.RunAll(ts, 32)
	vt.Close()
}
