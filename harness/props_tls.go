package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// C26: TLS. Every certificate is made at the start of the process.

type pki struct {
	dir     string
	ca      [4]*x509.Certificate
	cakey   [4]*ecdsa.PrivateKey
	clients map[string]*tls.Certificate
	issuer  map[string]int // the CA which makes the client trusted. -1: none
	valid   map[string]bool
}

const nServers = 3

var pkiOnce sync.Once
var thePKI *pki

func writePEM(path, typ string, b []byte) {
	Must(os.WriteFile(path, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}), 0o600))
}

func (p *pki) file(name string) string { return filepath.Join(p.dir, name) }

func newCert(t *x509.Certificate, parent *x509.Certificate, signer *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	Must(err)
	t.SerialNumber, err = rand.Int(rand.Reader, big.NewInt(1<<60))
	Must(err)
	if t.NotAfter.IsZero() {
		t.NotBefore, t.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(100*time.Hour)
	}
	if parent == nil {
		parent, signer = t, key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, signer)
	Must(err)
	c, err := x509.ParseCertificate(der)
	Must(err)
	return c, key
}

func thePki(h *H) *pki {
	pkiOnce.Do(func() {
		p := &pki{dir: filepath.Join(h.Dir, "pki"), clients: map[string]*tls.Certificate{}, issuer: map[string]int{}, valid: map[string]bool{}}
		Must(os.MkdirAll(p.dir, 0o700))
		name := func(s string) pkix.Name { return pkix.Name{CommonName: s} }
		for i := range p.ca {
			p.ca[i], p.cakey[i] = newCert(&x509.Certificate{Subject: name(fmt.Sprint("ca", i)), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}, nil, nil)
			writePEM(p.file(fmt.Sprintf("ca%d.pem", i)), "CERTIFICATE", p.ca[i].Raw)
		}
		// two in one file
		b := append(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: p.ca[1].Raw}), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: p.ca[2].Raw})...)
		Must(os.WriteFile(p.file("ca12.pem"), b, 0o600))
		for i := 0; i < nServers; i++ {
			c, k := newCert(&x509.Certificate{Subject: name("server"), DNSNames: []string{fmt.Sprintf("s%d.test", i)}, KeyUsage: x509.KeyUsageDigitalSignature,
				ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}, p.ca[0], p.cakey[0])
			writePEM(p.file(fmt.Sprintf("s%d.pem", i)), "CERTIFICATE", c.Raw)
			kb, err := x509.MarshalPKCS8PrivateKey(k)
			Must(err)
			writePEM(p.file(fmt.Sprintf("s%d.key", i)), "PRIVATE KEY", kb)
		}
		Must(os.WriteFile(p.file("garbage"), []byte("not a certificate\n"), 0o600))
		Must(os.WriteFile(p.file("empty"), nil, 0o600))
		client := func(n string, issuer int, valid bool, t *x509.Certificate, parent *x509.Certificate, key *ecdsa.PrivateKey, chain ...*x509.Certificate) {
			if t.ExtKeyUsage == nil {
				t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
			}
			t.Subject, t.KeyUsage = name(n), x509.KeyUsageDigitalSignature
			c, k := newCert(t, parent, key)
			tc := &tls.Certificate{Certificate: [][]byte{c.Raw}, PrivateKey: k}
			for _, x := range chain {
				tc.Certificate = append(tc.Certificate, x.Raw)
			}
			p.clients[n], p.issuer[n], p.valid[n] = tc, issuer, valid
		}
		client("self-signed", -1, true, &x509.Certificate{}, nil, nil)
		for i := 1; i <= 3; i++ {
			client(fmt.Sprint("by ca", i), i, true, &x509.Certificate{}, p.ca[i], p.cakey[i])
		}
		client("expired", 1, false, &x509.Certificate{NotBefore: time.Now().Add(-10 * time.Hour), NotAfter: time.Now().Add(-time.Hour)}, p.ca[1], p.cakey[1])
		client("for servers", 1, false, &x509.Certificate{ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}, p.ca[1], p.cakey[1])
		mid, mkey := newCert(&x509.Certificate{Subject: name("mid"), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}, p.ca[2], p.cakey[2])
		client("by intermediate", 2, true, &x509.Certificate{}, mid, mkey, mid)
		// an impostor: the name of ca1, the key of another
		fake, fkey := newCert(&x509.Certificate{Subject: name("ca1"), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}, nil, nil)
		client("by fake ca1", -1, true, &x509.Certificate{}, fake, fkey, fake)
		p.clients["none"] = nil
		thePKI = p
	})
	return thePKI
}

type tlsCase struct {
	Servers []int  // certificates, in order
	Auth    string // "" leaves the default
	CAs     []string
	Break   string
	Client  []string
}

var authTypes = []string{"NoClientCert", "RequestClientCert", "RequireAnyClientCert", "VerifyClientCertIfGiven", "RequireAndVerifyClientCert"}
var tlsClients = []string{"none", "self-signed", "by ca1", "by ca2", "by ca3", "expired", "for servers", "by intermediate", "by fake ca1"}
var tlsBreaks = []string{"no key", "no cert", "more certs", "more keys", "missing cert", "missing key", "mismatch", "garbage cert", "garbage key", "empty cert", "auth", "auth case", "missing ca", "garbage ca", "empty ca"}

func genTLS(t *rapid.T) tlsCase {
	c := tlsCase{}
	c.Servers = rapid.Permutation([]int{0, 1, 2}).Draw(t, "servers")[:rapid.IntRange(0, nServers).Draw(t, "n")]
	if len(c.Servers) == 0 && rapid.IntRange(0, 2).Draw(t, "plain") > 0 {
		c.Servers = []int{0}
	}
	c.Auth = rapid.SampledFrom(append([]string{""}, authTypes...)).Draw(t, "auth")
	c.CAs = rapid.Permutation([]string{"ca1.pem", "ca2.pem", "ca3.pem", "ca12.pem", "ca0.pem"}).Draw(t, "cas")[:rapid.IntRange(0, 3).Draw(t, "ncas")]
	if len(c.Servers) > 0 && rapid.IntRange(0, 3).Draw(t, "broken") == 0 {
		c.Break = rapid.SampledFrom(tlsBreaks).Draw(t, "break")
	}
	c.Client = rapid.Permutation(tlsClients).Draw(t, "clients")[:rapid.IntRange(1, len(tlsClients)).Draw(t, "nclients")]
	return c
}

func execTLS(h *H, c tlsCase) {
	p := thePki(h)
	config.Configure(true)
	h.Cleanup(func() { config.Configure(true) })
	var certs, keys, cas []string
	for _, i := range c.Servers {
		certs = append(certs, p.file(fmt.Sprintf("s%d.pem", i)))
		keys = append(keys, p.file(fmt.Sprintf("s%d.key", i)))
	}
	trusted := map[int]bool{}
	for _, ca := range c.CAs {
		cas = append(cas, p.file(ca))
		for _, d := range strings.TrimSuffix(ca[2:], ".pem") {
			trusted[int(d-'0')] = true
		}
	}
	auth := c.Auth
	last := len(certs) - 1
	switch c.Break {
	case "no key":
		keys = nil
	case "no cert":
		certs = nil
	case "more certs":
		certs = append(certs, certs[0])
	case "more keys":
		keys = append(keys, keys[0])
	case "missing cert":
		certs[last] = p.file("nothing")
	case "missing key":
		keys[last] = p.file("nothing")
	case "mismatch":
		keys[last] = p.file(fmt.Sprintf("s%d.key", (c.Servers[last]+1)%nServers))
	case "garbage cert":
		certs[last] = p.file("garbage")
	case "garbage key":
		keys[last] = p.file("garbage")
	case "empty cert":
		certs[last] = p.file("empty")
	case "auth":
		auth = "RequireEverything"
	case "auth case":
		auth = "require_and_verify"
	case "missing ca":
		cas = append(cas, p.file("nothing"))
	case "garbage ca":
		cas = append(cas, p.file("garbage"))
	case "empty ca":
		cas = append([]string{p.file("empty")}, cas...)
	}
	if len(certs) > 0 {
		config.TlsServerCertFilePaths.Set(strings.Join(certs, ","))
	}
	if len(keys) > 0 {
		config.TlsServerKeyFilePaths.Set(strings.Join(keys, ","))
	}
	if len(cas) > 0 {
		config.TlsClientCertFilePaths.Set(strings.Join(cas, ","))
	}
	if auth != "" {
		config.TlsClientAuthType.Set(auth)
	} else {
		auth = "NoClientCert"
	}
	h.Logf("certs=%v auth=%v cas=%v break=%v", c.Servers, auth, c.CAs, c.Break)
	in := newInstance("memory")
	addr, err := serve(h, in)
	if c.Break != "" {
		h.Label("broken: " + c.Break)
		h.Nontrivial()
		h.Check(err != nil, "C26", "the server starts with an invalid configuration: %s", c.Break)
		return
	}
	h.Check(err == nil, "C26", "the server does not start: %v", err)
	call := func(creds credentials.TransportCredentials) error {
		ctx, cancel := context.WithTimeout(bg, 20*time.Second)
		defer cancel()
		conn := dial(h, addr, creds)
		defer conn.Close()
		_, err := deckard.NewDeckardClient(conn).Count(ctx, &deckard.CountRequest{}, failFast)
		return err
	}
	if len(c.Servers) == 0 {
		h.Check(call(nil) == nil, "C26", "a server without certificates rejects plain connections")
		h.Label("plain")
		return
	}
	h.Nontrivial()
	h.Label(auth)
	err = call(nil)
	h.Check(status.Code(err) == codes.Unavailable, "C26", "a server with certificates answers a plain connection: %v", err)
	roots := x509.NewCertPool()
	roots.AddCert(p.ca[0])
	for n := 0; n < max(len(c.Client), len(c.Servers)); n++ {
		who := c.Client[n%len(c.Client)]
		cert := p.clients[who]
		verifies := cert != nil && p.valid[who] && p.issuer[who] >= 0 && trusted[p.issuer[who]]
		want := true
		switch auth {
		case "RequireAnyClientCert":
			want = cert != nil
		case "VerifyClientCertIfGiven":
			want = cert == nil || verifies
		case "RequireAndVerifyClientCert":
			want = verifies
		}
		// each of the configured certificates is the one shown for its name
		name := fmt.Sprintf("s%d.test", c.Servers[n%len(c.Servers)])
		tc := &tls.Config{RootCAs: roots, ServerName: name}
		if cert != nil {
			tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return cert, nil }
		}
		err := call(credentials.NewTLS(tc))
		h.Logf("client %q to %s: %v", who, name, err)
		h.Label(fmt.Sprintf("client %s accepted=%v", who, want))
		if want {
			h.Check(err == nil, "C26", "with %s and the CAs %v the client %q connecting to %s was rejected: %v", auth, c.CAs, who, name, err)
		} else {
			h.Check(err != nil, "C26", "with %s and the CAs %v the client %q was accepted", auth, c.CAs, who)
		}
	}
}

func init() {
	register("C26", "a server with certificates, or one which has to refuse to start",
		sub("policies", 2400, 60000, genTLS, execTLS,
			tlsCase{Servers: []int{0}, Break: "no key", Client: tlsClients}, tlsCase{Servers: []int{0}, Break: "no cert", Client: tlsClients}))
}
