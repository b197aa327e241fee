package main

import (
	"crypto"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtx"
)

// outside plays the identity server and the cloud controller.
type outside struct {
	mu   sync.Mutex
	s    *stack
	key  *rsa.PrivateKey
	fake *rsa.PrivateKey
}

func (o *outside) token(key *rsa.PrivateKey, admin bool, exp time.Time, sub string) string {
	scopes := []string{"openid", "cloud_controller.read"}
	if admin {
		scopes = append(scopes, "logs.admin")
	}
	h, _ := json.Marshal(R{"alg": "RS256", "kid": "k", "typ": "JWT"})
	p, _ := json.Marshal(R{"scope": scopes, "exp": exp.Unix(), "sub": sub})
	in := base64.RawURLEncoding.EncodeToString(h) + "." + base64.RawURLEncoding.EncodeToString(p)
	d := sha256.Sum256([]byte(in))
	sig, err := rsa.SignPKCS1v15(crand.Reader, key, crypto.SHA256, d[:])
	if err != nil {
		vt.Fatal("%s", err)
	}
	return in + "." + base64.RawURLEncoding.EncodeToString(sig)
}

func (o *outside) keys(w http.ResponseWriter, r *http.Request) {
	if r.URL.Path != "/token_keys" {
		w.WriteHeader(404)
		return
	}
	b, _ := x509.MarshalPKIXPublicKey(&o.key.PublicKey)
	json.NewEncoder(w).Encode(R{"keys": []R{{"kid": "k", "alg": "RS256", "value": string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))}}})
}

func (o *outside) capi(w http.ResponseWriter, r *http.Request) {
	x := o.s.scene()
	x.mu.Lock()
	defer x.mu.Unlock()
	t, ok := x.tback[r.Header.Get("Authorization")]
	if !ok || x.w.bad[t] {
		w.WriteHeader(401)
		return
	}
	res := []R{}
	if names := r.URL.Query().Get("names"); names != "" {
		for _, n := range strings.Split(names, ",") {
			for _, v := range x.w.rel[x.w_(n)] {
				res = append(res, R{"guid": x.word[v], "name": n})
			}
		}
	} else {
		for s := range x.w.grants[t] {
			// half of the sources are applications, the others services
			if (len(s)+int(s[0]))%2 == 0 == strings.HasSuffix(r.URL.Path, "apps") {
				res = append(res, R{"guid": x.word[s], "name": "name of " + s})
			}
		}
	}
	json.NewEncoder(w).Encode(R{"pagination": R{}, "resources": res})
}

func serveTLS(p vtx.Pair, h http.HandlerFunc) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vt.Fatal("%s", err)
	}
	s := &http.Server{Handler: h, TLSConfig: &tls.Config{Certificates: []tls.Certificate{p.TLS()}}}
	go s.ServeTLS(l, "", "")
	return "https://" + l.Addr().String()
}

type variant struct {
	name           string
	gw, uaa, capi  vtx.Pair
	skip           bool
	evil, deaf, up bool // the gateway cannot prove who it is; the controller cannot; the proxy is expected to start
}

func program(ca, other *vtx.CA, pair vtx.Pair, dir string) {
	capiPair := ca.Issue("capi", []string{"capi.service.internal"})
	otherPair := other.Issue("otherhost", []string{"localhost"})
	otherCapi := other.Issue("othercapi", []string{"capi.service.internal"})
	vs := []variant{
		{name: "good", gw: pair, uaa: pair, capi: capiPair, up: true},
		{name: "skip", gw: pair, uaa: otherPair, capi: otherCapi, skip: true, up: true},
		{name: "gateway", gw: otherPair, uaa: pair, capi: capiPair, up: true, evil: true},
		{name: "gateway-skip", gw: otherPair, uaa: pair, capi: capiPair, skip: true, up: true, evil: true},
		{name: "capi-ca", gw: pair, uaa: pair, capi: otherCapi, up: true, deaf: true},
		{name: "capi-name", gw: pair, uaa: pair, capi: pair, up: true, deaf: true},
		{name: "uaa", gw: pair, uaa: otherPair, capi: capiPair},
	}
	var ts []vt.Task
	var mu sync.Mutex
	var cmds []*exec.Cmd
	var ready sync.WaitGroup
	for i, v := range vs {
		i, v := i, v
		n := int(vt.N)
		if i > 1 {
			n = 1 + n/10
		}
		pools := make(chan map[bool]chan *stack, 1)
		start := func() map[bool]chan *stack {
			s := &stack{evil: v.evil}
			o := &outside{s: s, key: vtx.NewKey(), fake: vtx.NewKey()}
			s.c = httpClient(&tls.Config{RootCAs: ca.Pool(), ServerName: "localhost"}, i%2 == 1)
			gw := startGateway(s, v.gw)
			addr := fmt.Sprintf("127.0.0.1:%d", vtx.FreePort())
			bin := os.Getenv("VERIF_PROXY_BIN")
			cmd := exec.Command(bin)
			cmd.Dir = filepath.Dir(bin)
			cmd.Env = []string{"ADDR=" + addr, "LOG_CACHE_GATEWAY_ADDR=" + []string{"http", "https"}[i%2] + "://" + gw, fmt.Sprintf("HEALTH_PORT=%d", vtx.FreePort()), "EXTERNAL_CERT=" + pair.CertPath, "EXTERNAL_KEY=" + pair.KeyPath,
				"PROXY_CA_PATH=" + ca.Path, "CAPI_ADDR=" + serveTLS(v.capi, o.capi), "CAPI_CA_PATH=" + ca.Path, "CAPI_COMMON_NAME=capi.service.internal", "UAA_CLIENT_ID=id", "UAA_CLIENT_SECRET=secret",
				"UAA_ADDR=" + serveTLS(v.uaa, o.keys), "UAA_CA_PATH=" + ca.Path, fmt.Sprintf("SKIP_CERT_VERIFY=%v", v.skip)}
			if err := cmd.Start(); err != nil {
				vt.Fatal("%s", err)
			}
			mu.Lock()
			cmds = append(cmds, cmd)
			mu.Unlock()
			s.base = "https://" + addr
			if v.up {
				waitTLS(addr, s.c)
			} else {
				time.Sleep(3 * time.Second)
			}
			s.front = func(x *scene) {
				x.mu.Lock()
				defer x.mu.Unlock()
				for t := range x.tok {
					delete(x.tback, x.tok[t])
					key, exp := o.key, time.Now().Add(time.Hour)
					if x.w.bad[t] {
						if x.r.Intn(2) == 0 {
							key = o.fake
						} else {
							exp = time.Now().Add(-time.Hour)
						}
					}
					x.tok[t] = "bearer " + o.token(key, x.w.admins[t], exp, x.e.Ep+t)
					x.tback[x.tok[t]] = t
				}
			}
			m := map[bool]chan *stack{v.evil: make(chan *stack, 1)}
			m[v.evil] <- s
			return m
		}
		// all are started before the first is asked: a gateway sets what all of a process use
		ready.Add(1)
		go func() {
			defer ready.Done()
			pools <- start()
		}()
		for j := 0; j < n; j++ {
			name := fmt.Sprintf("program-%s-%d", v.name, j)
			ts = append(ts, vt.Task{Name: name, Run: func(e *vt.Episode) {
				m := <-pools
				pools <- m
				if !v.up {
					s := <-m[v.evil]
					resp, err := s.c.Get(s.base + "/api/v1/info")
					if err == nil {
						resp.Body.Close()
					}
					e.Log(R{"op": "weak", "refused": err != nil})
					m[v.evil] <- s
					return
				}
				storm(name, m, 25, v.evil, v.deaf)(e)
			}})
		}
		if v.up {
			name := "program-weak-" + v.name
			ts = append(ts, vt.Task{Name: name, Run: func(e *vt.Episode) {
				m := <-pools
				pools <- m
				s := <-m[v.evil]
				weak(s, ca)(e)
				m[v.evil] <- s
			}})
		}
	}
	ready.Wait()
	vt.RunAll(ts, 8)
	for _, c := range cmds {
		c.Process.Kill()
		c.Wait()
	}
}
