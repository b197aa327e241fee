// Package vtx makes certificate authorities and certificates for drivers.
package vtx

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io/ioutil"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/internal/verifdrv/vt"
)

var (
	keyOnce sync.Once
	key     *rsa.PrivateKey
	serial  int64
	mu      sync.Mutex
)

// Key is one RSA key shared by all certificates, for speed.
func Key() *rsa.PrivateKey {
	keyOnce.Do(func() { key = NewKey() })
	return key
}

// NewKey makes another RSA key.
func NewKey() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		vt.Fatal("key: %s", err)
	}
	return k
}

// CA is a certificate authority.
type CA struct {
	Cert *x509.Certificate
	key  *rsa.PrivateKey
	PEM  []byte
	Path string
	Dir  string
}

func next() *big.Int {
	mu.Lock()
	defer mu.Unlock()
	serial++
	return big.NewInt(serial)
}

// Dir makes a scratch directory.
func Dir() string {
	d, err := ioutil.TempDir("", "vtx")
	if err != nil {
		vt.Fatal("tempdir: %s", err)
	}
	return d
}

// NewCA makes an authority and writes its certificate into dir. Authorities have keys of their own.
func NewCA(dir, cn string) *CA {
	k := NewKey()
	t := &x509.Certificate{
		SerialNumber: next(), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		vt.Fatal("ca: %s", err)
	}
	c, _ := x509.ParseCertificate(der)
	ca := &CA{Cert: c, key: k, PEM: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), Dir: dir}
	ca.Path = Write(dir, cn+".ca.crt", ca.PEM)
	return ca
}

// Write writes a file and returns its path.
func Write(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := ioutil.WriteFile(p, b, 0o600); err != nil {
		vt.Fatal("%s", err)
	}
	return p
}

// Pair is a certificate with its key.
type Pair struct {
	CertPath, KeyPath string
	CertPEM, KeyPEM   []byte
	Leaf              *x509.Certificate
}

// Opt changes the template of a certificate.
type Opt func(*x509.Certificate)

// Issue makes a certificate for the DNS names (and 127.0.0.1), usable by servers and clients.
func (ca *CA) Issue(name string, dns []string, opts ...Opt) Pair {
	t := &x509.Certificate{
		SerialNumber: next(), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		DNSNames: dns, IPAddresses: []net.IP{net.ParseIP("127.0.0.1"), net.ParseIP("::1")},
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
	}
	for _, o := range opts {
		o(t)
	}
	k := Key()
	der, err := x509.CreateCertificate(rand.Reader, t, ca.Cert, &k.PublicKey, ca.key)
	if err != nil {
		vt.Fatal("cert: %s", err)
	}
	p := Pair{
		CertPEM: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}),
		KeyPEM:  pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}),
	}
	p.Leaf, _ = x509.ParseCertificate(der)
	p.CertPath = Write(ca.Dir, name+".crt", p.CertPEM)
	p.KeyPath = Write(ca.Dir, name+".key", p.KeyPEM)
	return p
}

// TLS returns the pair as Go likes it.
func (p Pair) TLS() tls.Certificate {
	c, err := tls.X509KeyPair(p.CertPEM, p.KeyPEM)
	if err != nil {
		vt.Fatal("pair: %s", err)
	}
	return c
}

// Sub makes an intermediate authority.
func (ca *CA) Sub(cn string) *CA {
	k := NewKey()
	t := &x509.Certificate{
		SerialNumber: next(), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	der, err := x509.CreateCertificate(rand.Reader, t, ca.Cert, &k.PublicKey, ca.key)
	if err != nil {
		vt.Fatal("sub: %s", err)
	}
	c, _ := x509.ParseCertificate(der)
	return &CA{Cert: c, key: k, PEM: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), Dir: ca.Dir}
}

// Pool returns a pool with this authority.
func (ca *CA) Pool() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(ca.Cert)
	return p
}

// FreePort finds a port that is free right now.
func FreePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vt.Fatal("listen: %s", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// Remove removes a scratch directory made by Dir.
func Remove(d string) {
	if filepath.Dir(d) == filepath.Clean(os.TempDir()) && len(filepath.Base(d)) > 3 && filepath.Base(d)[:3] == "vtx" {
		os.RemoveAll(d)
	}
}
