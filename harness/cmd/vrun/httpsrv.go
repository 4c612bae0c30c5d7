package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vh/proto"
)

// Fault changes how the server answers a path.
type Fault struct {
	Suffix  string `json:"suffix"`            // path suffix it applies to; "" = every path of the world
	Contain string `json:"contain,omitempty"` // path must contain this
	Status  int    `json:"status,omitempty"`
	Cut     int    `json:"cut,omitempty"` // send only this many bytes, then drop the connection (-1: none at all after the header)
	CutOn   bool   `json:"cut_on,omitempty"`
	Chunked bool   `json:"chunked,omitempty"`
	Fin     bool   `json:"fin,omitempty"`     // Cut ends with an orderly close rather than a reset
	Reset   bool   `json:"reset,omitempty"`   // drop before any answer
	DelayMs int    `json:"delay,omitempty"`   // before answering
	SlowMs  int    `json:"slow,omitempty"`    // between the pieces of the body
	Times   int    `json:"times,omitempty"`   // apply only to the first n requests (0: always)
	After   int    `json:"after,omitempty"`   // apply from the n+1st request on
	KillAt  int    `json:"kill_at,omitempty"` // SIGKILL pkgr after this many body bytes
	KillOn  bool   `json:"kill_on,omitempty"`
	ToTLS   bool   `json:"to_tls,omitempty"` // redirect to the https server
	n       int32
	fired   int32
}

// Req is one logged request.
type Req struct {
	Path   string `json:"path"` // relative to the world's prefix
	Status int    `json:"status"`
	Sent   int    `json:"sent"`
	Full   bool   `json:"full"`
	TLS    bool   `json:"tls,omitempty"`
	T      int64  `json:"t"`
	Method string `json:"method,omitempty"`
}

type server struct {
	mu     sync.Mutex
	worlds map[string]*World
	addr   string
	tlsA   string
	tlsBad map[string]string // address by what is wrong with the certificate
	caPEM  []byte
}

var srv *server

func startServer() {
	srv = &server{worlds: map[string]*World{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		die("listen: %v", err)
	}
	srv.addr = l.Addr().String()
	quiet := log.New(io.Discard, "", 0)
	hs := &http.Server{Handler: srv, ErrorLog: quiet}
	go hs.Serve(l)
	tl, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		die("listen: %v", err)
	}
	srv.tlsA = tl.Addr().String()
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tm := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-24 * time.Hour),
		NotAfter: time.Now().Add(240 * time.Hour), IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}, IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, tm, tm, &key.PublicKey, key)
	if err != nil {
		die("cert: %v", err)
	}
	srv.caPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	ts := &http.Server{Handler: srv, ErrorLog: quiet, TLSConfig: &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}}
	go ts.ServeTLS(tl, "", "")
	srv.tlsBad = map[string]string{}
	for i, bad := range []string{"host", "expired", "early"} { // signed by the same authority
		lf := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 2)), Subject: pkix.Name{CommonName: bad}, NotBefore: time.Now().Add(-24 * time.Hour),
			NotAfter: time.Now().Add(240 * time.Hour), IPAddresses: []net.IP{net.ParseIP("127.0.0.1")},
			KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		switch bad {
		case "host":
			lf.IPAddresses, lf.DNSNames = nil, []string{"repo.example.org", "localhost"}
		case "expired":
			lf.NotAfter = time.Now().Add(-time.Hour)
		case "early":
			lf.NotBefore = time.Now().Add(2 * time.Hour)
		}
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		d, err := x509.CreateCertificate(rand.Reader, lf, tm, &k.PublicKey, key)
		if err != nil {
			die("cert: %v", err)
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			die("listen: %v", err)
		}
		srv.tlsBad[bad] = l.Addr().String()
		s := &http.Server{Handler: srv, ErrorLog: quiet, TLSConfig: &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{d}, PrivateKey: k}}}}
		go s.ServeTLS(l, "", "")
	}
}

func (s *server) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	p := strings.TrimPrefix(r.URL.Path, "/")
	i := strings.IndexByte(p, '/')
	if i < 0 {
		rw.WriteHeader(404)
		return
	}
	s.mu.Lock()
	w := s.worlds[p[:i]]
	s.mu.Unlock()
	if w == nil {
		rw.WriteHeader(404)
		return
	}
	w.serve(rw, r, p[i+1:])
}

func hijackDrop(rw http.ResponseWriter, orderly bool) {
	h, ok := rw.(http.Hijacker)
	if !ok {
		panic(http.ErrAbortHandler)
	}
	c, _, err := h.Hijack()
	if err == nil {
		if t, ok := c.(*net.TCPConn); ok && !orderly {
			t.SetLinger(0)
		}
		c.Close()
	}
}

// mirrored says how requests for a path are redirected, or 0.
func (w *World) mirrored(path string) int {
	for i := range w.Sc.Repos {
		if r := &w.Sc.Repos[i]; r.Mirror > 0 && strings.HasPrefix(path, r.dir()+"/") {
			return r.Mirror
		}
	}
	return 0
}

func (w *World) serve(rw http.ResponseWriter, r *http.Request, path string) {
	if rest, ok := strings.CutPrefix(path, "mirror@/"); ok {
		path = rest
	} else if st := w.mirrored(path); st > 0 {
		u := url.URL{Path: strings.TrimSuffix(r.URL.Path, path) + "mirror@/" + path}
		http.Redirect(rw, r, u.String(), st)
		return
	}
	atomic.AddInt32(&w.active, 1)
	defer atomic.AddInt32(&w.active, -1)
	req := Req{Path: path, TLS: r.TLS != nil, T: proto.Mono(), Method: r.Method}
	defer func() {
		w.mu.Lock()
		w.reqs = append(w.reqs, req)
		w.mu.Unlock()
	}()
	w.mu.Lock()
	body, ok := w.files[path]
	faults := w.faults
	w.mu.Unlock()
	var f *Fault
	for _, x := range faults {
		if strings.HasSuffix(path, x.Suffix) && strings.Contains(path, x.Contain) {
			k := int(atomic.AddInt32(&x.n, 1))
			if (x.Times > 0 && k > x.Times) || k <= x.After {
				continue
			}
			f = x
			break
		}
	}
	if f != nil {
		atomic.AddInt32(&f.fired, 1)
		if f.DelayMs > 0 {
			time.Sleep(time.Duration(f.DelayMs) * time.Millisecond)
		}
		if f.Reset {
			hijackDrop(rw, f.Fin)
			return
		}
		if f.ToTLS && r.TLS == nil {
			req.Status = 302
			http.Redirect(rw, r, "https://"+srv.tlsA+r.URL.Path, 302)
			return
		}
		if f.Status != 0 && f.Status != 200 {
			req.Status = f.Status
			rw.WriteHeader(f.Status)
			if f.Status != 204 && f.Status != 304 {
				b := []byte("this is an error page for " + path + "\n")
				rw.Write(b)
				req.Sent = len(b)
			}
			return
		}
	}
	if !ok {
		req.Status = 404
		rw.WriteHeader(404)
		io.WriteString(rw, "not found\n")
		return
	}
	req.Status = 200
	if f == nil || !f.Chunked {
		rw.Header().Set("Content-Length", itoa(len(body)))
	}
	rw.Header().Set("Content-Type", "application/octet-stream")
	if f != nil && f.KillOn {
		k := min(max(f.KillAt, 0), len(body))
		pid := w.cur.Load() // not a later run
		rw.WriteHeader(200)
		rw.Write(body[:k])
		flush(rw)
		time.Sleep(8 * time.Millisecond) // let the client store what it got
		if w.cur.Load() == pid {
			w.kill()
		}
		hijackDrop(rw, f.Fin)
		req.Sent = k
		return
	}
	if f != nil && f.CutOn {
		k := min(max(f.Cut, 0), len(body)-1)
		rw.WriteHeader(200)
		if k > 0 {
			rw.Write(body[:k])
		}
		flush(rw)
		req.Sent = k
		if k > 0 {
			time.Sleep(5 * time.Millisecond)
		}
		hijackDrop(rw, f.Fin)
		return
	}
	n := 0
	if f != nil && f.SlowMs > 0 && len(body) > 5 {
		for i := 0; i < 5; i++ {
			k := len(body) / 5
			if i == 4 {
				k = len(body) - n
			}
			m, err := rw.Write(body[n : n+k])
			n += m
			if err != nil {
				break
			}
			flush(rw)
			time.Sleep(time.Duration(f.SlowMs) * time.Millisecond)
		}
	} else {
		n, _ = rw.Write(body)
	}
	if f != nil && f.Chunked {
		flush(rw)
	}
	req.Sent = n
	req.Full = n == len(body)
}

func flush(rw http.ResponseWriter) {
	if f, ok := rw.(http.Flusher); ok {
		f.Flush()
	}
}
