// Package jose is an offline stand-in for github.com/dvsekhvalnov/jose2go: compact
// JWS only, RS256/RS384/RS512/HS256/none; other registered algorithms reach the key
// callback, as upstream, and then fail.
package jose

import (
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	_ "crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
)

const (
	NONE  = "none"
	HS256 = "HS256"
	HS384 = "HS384"
	HS512 = "HS512"
	RS256 = "RS256"
	RS384 = "RS384"
	RS512 = "RS512"
	PS256 = "PS256"
	PS384 = "PS384"
	PS512 = "PS512"
	ES256 = "ES256"
	ES384 = "ES384"
	ES512 = "ES512"
)

var jwsAlgs = map[string]bool{NONE: true, HS256: true, HS384: true, HS512: true, RS256: true, RS384: true, RS512: true,
	PS256: true, PS384: true, PS512: true, ES256: true, ES384: true, ES512: true}

var jweAlgs = map[string]bool{"dir": true, "RSA1_5": true, "RSA-OAEP": true, "RSA-OAEP-256": true, "A128KW": true,
	"A192KW": true, "A256KW": true, "ECDH-ES": true, "A128GCMKW": true, "A256GCMKW": true}

// JoseConfig mutates the headers of a token being signed.
type JoseConfig struct{ Headers map[string]interface{} }

// Header adds a header to the token being signed.
func Header(name string, value interface{}) func(*JoseConfig) {
	return func(c *JoseConfig) { c.Headers[name] = value }
}

func enc(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// Sign produces a signed JWT.
func Sign(payload string, signingAlg string, key interface{}, opts ...func(*JoseConfig)) (string, error) {
	c := &JoseConfig{Headers: map[string]interface{}{"alg": signingAlg, "typ": "JWT"}}
	for _, o := range opts {
		o(c)
	}
	h, err := json.Marshal(c.Headers)
	if err != nil {
		return "", err
	}
	secured := enc(h) + "." + enc([]byte(payload))
	var sig []byte
	switch signingAlg {
	case NONE:
	case HS256:
		m := hmac.New(sha256.New, key.([]byte))
		m.Write([]byte(secured))
		sig = m.Sum(nil)
	case RS256:
		k, ok := key.(*rsa.PrivateKey)
		if !ok {
			return "", errors.New("RsaUsingSha.Sign(): expects key to be '*rsa.PrivateKey'")
		}
		d := sha256.Sum256([]byte(secured))
		if sig, err = rsa.SignPKCS1v15(rand.Reader, k, crypto.SHA256, d[:]); err != nil {
			return "", err
		}
	default:
		return "", fmt.Errorf("jwt.Sign(): unknown algorithm: '%v'", signingAlg)
	}
	return secured + "." + enc(sig), nil
}

// Decode verifies a compact token and returns its payload and headers.
func Decode(token string, key interface{}) (payload string, headers map[string]interface{}, err error) {
	raw := strings.Split(token, ".")
	parts := make([][]byte, len(raw))
	for i, r := range raw {
		if parts[i], err = base64.RawURLEncoding.DecodeString(strings.TrimRight(r, "=")); err != nil {
			return "", nil, err
		}
	}
	if len(parts) != 3 && len(parts) != 5 {
		return "", nil, fmt.Errorf("jwt.Decode() expects token of 3 or 5 parts, but was given: %v parts", len(parts))
	}
	var h map[string]interface{}
	if err = json.Unmarshal(parts[0], &h); err != nil {
		return "", nil, err
	}
	alg, ok := h["alg"].(string)
	if !ok {
		return "", nil, errors.New("jwt.Decode(): required 'alg' header is missing or of invalid type")
	}
	known := jwsAlgs
	body := string(parts[1])
	if len(parts) == 5 {
		known, body = jweAlgs, ""
	}
	if !known[alg] {
		return "", nil, fmt.Errorf("jwt.Decode(): Unknown algorithm: '%v'", alg)
	}
	if cb, ok := key.(func(headers map[string]interface{}, payload string) interface{}); ok {
		key = cb(h, body)
		if err, ok := key.(error); ok {
			return "", nil, err
		}
	}
	if len(parts) == 5 {
		return "", nil, errors.New("jwt.Decode(): encrypted tokens are not supported")
	}
	secured := []byte(raw[0] + "." + raw[1])
	switch alg {
	case NONE:
		if key != nil {
			return "", nil, errors.New("Plaintext.Verify() expects key to be nil")
		}
		if len(parts[2]) != 0 {
			return "", nil, errors.New("Plaintext.Verify() expects signature to be empty")
		}
	case RS256, RS384, RS512, PS256, PS384, PS512:
		k, ok := key.(*rsa.PublicKey)
		if !ok {
			return "", nil, errors.New("RsaUsingSha.Verify(): expects key to be '*rsa.PublicKey'")
		}
		h := map[string]crypto.Hash{"256": crypto.SHA256, "384": crypto.SHA384, "512": crypto.SHA512}[alg[2:]]
		d := h.New()
		d.Write(secured)
		if alg[0] == 'P' {
			err = rsa.VerifyPSS(k, h, d.Sum(nil), parts[2], nil)
		} else {
			err = rsa.VerifyPKCS1v15(k, h, d.Sum(nil), parts[2])
		}
		if err != nil {
			return "", nil, err
		}
	case HS256:
		k, ok := key.([]byte)
		if !ok {
			return "", nil, errors.New("HmacUsingSha.Verify(): expects key to be '[]byte' array")
		}
		m := hmac.New(sha256.New, k)
		m.Write(secured)
		if !hmac.Equal(m.Sum(nil), parts[2]) {
			return "", nil, errors.New("HmacUsingSha.Verify(): Signature is invalid")
		}
	default:
		return "", nil, fmt.Errorf("%s verification is not supported", alg)
	}
	return body, h, nil
}
