package main

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtx"
)

// tail passes what a program appended to its log to f.
type tail struct {
	mu     sync.Mutex
	path   string
	before []byte
	read   int
	f      *file
}

func (t *tail) drain() {
	t.mu.Lock()
	defer t.mu.Unlock()
	b, err := ioutil.ReadFile(t.path)
	if err != nil || len(b) <= t.read || !bytes.HasPrefix(b, t.before) {
		return
	}
	n := b[t.read:]
	t.read = len(b)
	t.f.Write(n)
}

func serveTLS(h http.Handler, p vtx.Pair) *httptest.Server {
	s := httptest.NewUnstartedServer(h)
	s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	s.TLS = &tls.Config{Certificates: []tls.Certificate{p.TLS()}}
	s.StartTLS()
	return s
}

// built starts the built proxy, its log in a file of its own.
func built(e *vt.Episode, r *rand.Rand, name string, f *file, host string) *world {
	w := &world{e: e, reqs: map[int]request{}, proxy: true, built: true}
	t := &tail{path: filepath.Join(dir, name+".log"), f: f}
	if r.Intn(2) == 0 {
		t.before = []byte("CEF:0|what was there before\n")
		if err := ioutil.WriteFile(t.path, t.before, 0666); err != nil {
			vt.Fatal("%s", err)
		}
	}
	t.read = len(t.before)
	w.tail = t
	back := serveTLS(w, pair)
	key := vtx.NewKey()
	b, _ := x509.MarshalPKIXPublicKey(&key.PublicKey)
	uaa := serveTLS(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		json.NewEncoder(w).Encode(R{"keys": []R{{"kid": "k", "alg": "RS256", "value": string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))}}})
	}), pair)
	addr := fmt.Sprintf("127.0.0.1:%d", vtx.FreePort())
	_, port, _ := net.SplitHostPort(addr)
	e.Cfg["port"] = port
	bin := os.Getenv("VERIF_PROXY_BIN")
	cmd := exec.Command(bin)
	cmd.Dir = filepath.Dir(bin)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = []string{"ADDR=" + addr, "INTERNAL_IP=" + host, "SECURITY_EVENT_LOG=" + t.path, "LOG_CACHE_GATEWAY_ADDR=" + back.URL, fmt.Sprintf("HEALTH_PORT=%d", vtx.FreePort()),
		"EXTERNAL_CERT=" + pair.CertPath, "EXTERNAL_KEY=" + pair.KeyPath, "PROXY_CA_PATH=" + ca.Path, "CAPI_ADDR=" + uaa.URL, "CAPI_CA_PATH=" + ca.Path, "CAPI_COMMON_NAME=localhost",
		"UAA_CLIENT_ID=id", "UAA_CLIENT_SECRET=secret", "UAA_ADDR=" + uaa.URL, "UAA_CA_PATH=" + ca.Path}
	if err := cmd.Start(); err != nil {
		vt.Fatal("%s", err)
	}
	w.dial = func() (net.Conn, error) {
		return tls.Dial("tcp", addr, &tls.Config{RootCAs: ca.Pool(), ServerName: "localhost"})
	}
	if !vt.Eventually(30*time.Second, func() bool {
		c, err := w.dial()
		if err == nil {
			c.Close()
		}
		return err == nil
	}) {
		vt.Fatal("the proxy does not serve")
	}
	w.stop = func() {
		cmd.Process.Kill()
		cmd.Wait()
		back.Close()
		uaa.Close()
	}
	return w
}
