// Driver for the certificate configurations: real handshakes with peers of every kind.
package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	sharedtls "code.cloudfoundry.org/log-cache/internal/tls"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
	"code.cloudfoundry.org/log-cache/internal/verifdrv/vtx"
	"google.golang.org/grpc/credentials"
)

type R = vt.R

var (
	dir     string
	cas     = map[string]*vtx.CA{}
	caFiles = map[string]string{}
	pairs   = map[string][2]string{}
	leaves  = map[string][]byte{}
	mu      sync.Mutex
	issued  = map[string]tls.Certificate{}
)

var ciphers = map[string]uint16{
	"ECDHE-RSA-AES128-GCM": tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
	"ECDHE-RSA-AES256-GCM": tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
	"ECDHE-RSA-CHACHA20":   tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305,
	"ECDHE-RSA-AES128-CBC": tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA,
	"ECDHE-RSA-AES256-CBC": tls.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA,
	"RSA-AES128-GCM":       tls.TLS_RSA_WITH_AES_128_GCM_SHA256,
	"RSA-AES256-CBC":       tls.TLS_RSA_WITH_AES_256_CBC_SHA,
	"RSA-3DES":             tls.TLS_RSA_WITH_3DES_EDE_CBC_SHA,
}

func setup() {
	dir = vtx.Dir()
	sub := func(n string) string {
		d := filepath.Join(dir, n)
		if err := os.Mkdir(d, 0o700); err != nil {
			vt.Fatal("%s", err)
		}
		return d
	}
	cas["A"] = vtx.NewCA(sub("a"), "authority A")
	cas["B"] = vtx.NewCA(sub("b"), "authority B")
	cas["other"] = vtx.NewCA(sub("o"), "authority A")
	cas["inter"] = cas["A"].Sub("intermediate")
	caFiles["A"], caFiles["B"] = cas["A"].Path, cas["B"].Path
	caFiles["AB"] = vtx.Write(dir, "ab.crt", append(append([]byte{}, cas["A"].PEM...), cas["B"].PEM...))
	// What the machine trusts is nobody's business here.
	os.Setenv("SSL_CERT_FILE", vtx.Write(dir, "machine.crt", append(append([]byte{}, cas["other"].PEM...), cas["B"].PEM...)))
	os.Setenv("SSL_CERT_DIR", sub("none"))
	caFiles["missing"] = filepath.Join(dir, "nowhere.crt")
	caFiles["garbage"] = vtx.Write(dir, "garbage.crt", []byte("-----BEGIN CERTIFICATE-----\nbm90IGEgY2VydGlmaWNhdGU=\n-----END CERTIFICATE-----\n"))
	caFiles["empty"] = vtx.Write(dir, "empty.crt", nil)
	for _, n := range []string{"A", "B"} {
		p := cas[n].Issue("node", []string{"node-" + n})
		pairs[n] = [2]string{p.CertPath, p.KeyPath}
		leaves[n] = p.Leaf.Raw
	}
	other := vtx.Write(dir, "other.key", pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(vtx.NewKey())}))
	bad := vtx.Write(dir, "bad.pem", []byte("nothing"))
	none := filepath.Join(dir, "none.pem")
	a := pairs["A"]
	pairs["mismatch"] = [2]string{a[0], other}
	pairs["nokey"] = [2]string{a[0], none}
	pairs["nocert"] = [2]string{none, a[1]}
	pairs["badkey"] = [2]string{a[0], bad}
	pairs["badcert"] = [2]string{bad, a[1]}
}

func peerCert(p R) (tls.Certificate, bool) {
	chain := vt.S(p, "chain")
	if chain == "none" {
		return tls.Certificate{}, false
	}
	key := fmt.Sprint(chain, p["names"], p["valid"], p["usage"])
	mu.Lock()
	defer mu.Unlock()
	if c, ok := issued[key]; ok {
		return c, true
	}
	var names []string
	for _, n := range p["names"].([]interface{}) {
		names = append(names, n.(string))
	}
	opts := []vtx.Opt{func(t *x509.Certificate) {
		t.IPAddresses = nil
		switch vt.S(p, "valid") {
		case "past":
			t.NotBefore, t.NotAfter = time.Now().Add(-48*time.Hour), time.Now().Add(-time.Minute)
		case "future":
			t.NotBefore = time.Now().Add(time.Hour)
		}
		switch vt.S(p, "usage") {
		case "server":
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		case "client":
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
		}
	}}
	var c tls.Certificate
	switch chain {
	case "self":
		d := filepath.Join(dir, fmt.Sprintf("self%d", len(issued)))
		os.Mkdir(d, 0o700)
		self := vtx.NewCA(d, "node")
		pr := self.Issue("node", names, opts...)
		c = pr.TLS()
		c.Certificate = append(c.Certificate, self.Cert.Raw)
	case "interA":
		c = cas["inter"].Issue(fmt.Sprintf("i%d", len(issued)), names, opts...).TLS()
		c.Certificate = append(c.Certificate, cas["inter"].Cert.Raw)
	case "lonely":
		c = cas["inter"].Issue(fmt.Sprintf("i%d", len(issued)), names, opts...).TLS()
	default:
		c = cas[chain].Issue(fmt.Sprintf("i%d", len(issued)), names, opts...).TLS()
	}
	issued[key] = c
	return c, true
}

func version(i int) uint16 { return uint16(0x0301 + i - 10) }

// exchange writes a byte and reads one, on an established connection.
func exchange(c net.Conn) error {
	if _, err := c.Write([]byte{'x'}); err != nil {
		return err
	}
	b := make([]byte, 1)
	_, err := io.ReadFull(c, b)
	return err
}

type side struct {
	hands func(net.Conn) (net.Conn, error)
}

func connect(e *vt.Episode, how, role string, c R, p R, cfg *tls.Config, creds credentials.TransportCredentials) {
	pc := &tls.Config{MinVersion: version(vt.I(p, "min")), MaxVersion: version(vt.I(p, "max")), InsecureSkipVerify: true}
	for _, n := range p["ciphers"].([]interface{}) {
		pc.CipherSuites = append(pc.CipherSuites, ciphers[n.(string)])
	}
	if cert, ok := peerCert(p); ok {
		pc.Certificates = []tls.Certificate{cert}
		pc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &cert, nil }
	} else {
		pc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &tls.Certificate{}, nil }
	}
	trustsA := vt.S(p, "trusts") == "A"
	var ours []byte
	pc.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error {
		if len(raw) == 0 {
			return nil
		}
		ours = raw[0]
		if trustsA {
			l, err := x509.ParseCertificate(raw[0])
			if err != nil {
				return err
			}
			_, err = l.Verify(x509.VerifyOptions{Roots: cas["A"].Pool(), KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}})
			return err
		}
		return nil
	}
	pc.ClientAuth = tls.RequireAnyClientCert

	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vt.Fatal("%s", err)
	}
	defer lis.Close()
	a, err := net.Dial("tcp", lis.Addr().String())
	if err != nil {
		vt.Fatal("%s", err)
	}
	b, err := lis.Accept()
	if err != nil {
		vt.Fatal("%s", err)
	}
	// a is the client's end
	mine, theirs := a, b
	if role == "server" {
		mine, theirs = b, a
	}
	dl := time.Now().Add(10 * time.Second)
	mine.SetDeadline(dl)
	theirs.SetDeadline(dl)

	peerErr := make(chan error, 1)
	go func() {
		var tc *tls.Conn
		if role == "client" {
			tc = tls.Server(theirs, pc)
		} else {
			tc = tls.Client(theirs, pc)
		}
		err := tc.Handshake()
		if err == nil {
			err = exchange(tc)
		}
		if err != nil {
			theirs.Close()
		}
		peerErr <- err
	}()

	var st tls.ConnectionState
	do := func() error {
		var conn net.Conn
		if creds == nil {
			var tc *tls.Conn
			if role == "client" {
				tc = tls.Client(mine, cfg)
			} else {
				tc = tls.Server(mine, cfg)
			}
			if err := tc.Handshake(); err != nil {
				return err
			}
			conn, st = tc, tc.ConnectionState()
		} else {
			var info credentials.AuthInfo
			var err error
			if role == "client" {
				ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
				defer cancel()
				conn, info, err = creds.ClientHandshake(ctx, "log-cache.example:8080", mine)
			} else {
				conn, info, err = creds.ServerHandshake(mine)
			}
			if err != nil {
				return err
			}
			ti, ok := info.(credentials.TLSInfo)
			if !ok {
				return errors.New("no TLS info")
			}
			st = ti.State
		}
		return exchange(conn)
	}
	myErr := do()
	if myErr != nil {
		mine.Close()
	}
	pErr := <-peerErr
	mine.Close()
	theirs.Close()
	name := "nobody's"
	for k, l := range leaves {
		if bytes.Equal(l, ours) {
			name = k
		}
	}
	cipher := fmt.Sprintf("%04x", st.CipherSuite)
	for k, v := range ciphers {
		if v == st.CipherSuite {
			cipher = k
		}
	}
	ver := 0
	if st.Version != 0 {
		ver = int(st.Version) - 0x0301 + 10
	}
	why := ""
	if myErr != nil {
		why = myErr.Error()
	}
	e.Log(R{"op": "connect", "role": role, "peer": p, "ok": myErr == nil, "ver": ver, "cipher": cipher, "ours": name, "why": why})
	if myErr == nil && pErr != nil {
		e.Log(R{"op": "half", "why": pErr.Error()})
	}
}

func scenario(n, how string, ops []R) vt.Task {
	return vt.Task{Name: n + "-" + how, Run: func(e *vt.Episode) {
		o := ops[0]
		ca, pr, name := caFiles[vt.S(o, "ca")], pairs[vt.S(o, "pair")], vt.S(o, "name")
		t := sharedtls.TLS{CAPath: ca, CertPath: pr[0], KeyPath: pr[1]}
		var cfg *tls.Config
		var creds credentials.TransportCredentials
		var err error
		switch how {
		case "config":
			cfg, err = sharedtls.NewMutualTLSConfig(ca, pr[0], pr[1], name)
			if err == nil && cfg == nil {
				err = errors.New("nothing")
			}
		case "creds":
			creds, err = sharedtls.NewTLSCredentials(ca, pr[0], pr[1], name)
		case "struct":
			if len(ops) == 1 {
				cmd := exec.Command(os.Args[0])
				cmd.Env = append(os.Environ(), "VERIF_MODE=child", "C_CA="+ca, "C_CERT="+pr[0], "C_KEY="+pr[1], "C_NAME="+name, "VERIF_OUT=/dev/null")
				out, err := cmd.Output()
				e.Log(R{"op": "build", "ca": o["ca"], "pair": o["pair"], "name": name, "ok": false})
				e.Log(R{"op": "fatal", "refused": err != nil && !strings.Contains(string(out), "ALIVE")})
				return
			}
			creds = t.Credentials(name)
		}
		e.Log(R{"op": "build", "ca": o["ca"], "pair": o["pair"], "name": name, "ok": err == nil})
		if err != nil {
			return
		}
		for _, x := range ops[1:] {
			connect(e, how, vt.S(x, "role"), o, x["peer"].(R), cfg, creds)
		}
	}}
}

func main() {
	if vt.Mode == "child" {
		sharedtls.TLS{CAPath: os.Getenv("C_CA"), CertPath: os.Getenv("C_CERT"), KeyPath: os.Getenv("C_KEY")}.Credentials(os.Getenv("C_NAME"))
		fmt.Println("ALIVE")
		os.Exit(0)
	}
	vt.Open()
	setup()
	var ts []vt.Task
	for i, s := range vt.Scenarios() {
		for j, how := range []string{"config", "creds", "struct"} {
			if vt.N > 0 || len(s) == 1 || (i+j+int(vt.Seed))%3 == 0 {
				ts = append(ts, scenario(fmt.Sprintf("scn-%d", i), how, s))
			}
		}
	}
	vt.RunAll(ts, 16)
	vtx.Remove(dir)
	vt.Close()
}
