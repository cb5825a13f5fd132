package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"os/signal"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/libregraph/idm/server"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/sirupsen/logrus"

	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// live is a server with real listeners that is stopped by signals, in this process.
type live struct {
	s           *server.Server
	addr, saddr string // "" if not listening there
	reg         *prometheus.Registry
	done        chan struct{}
	err         error
	cfg         server.Config
}

// livePatience is how long anything may take that should be prompt.
const livePatience = 20 * time.Second

var (
	liveSeq   atomic.Int64
	liveOnce  sync.Once
	liveSigs  = make(chan os.Signal, 64) // every signal this process receives
	liveCerts struct {
		sync.Once
		cert, key, other string
	}
)

// liveHost is an address of the loopback network nobody else uses.
func liveHost() string {
	n := liveSeq.Add(1)
	return fmt.Sprintf("127.%d.%d.%d", 20+os.Getpid()%200, n/250%250, n%250+1)
}

// liveSignals makes this process survive the signals.
func liveSignals() {
	liveOnce.Do(func() { signal.Notify(liveSigs, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP) })
}

// liveRaise sends this process a signal and waits until it arrived.
func liveRaise(s syscall.Signal) {
	liveSignals()
	syscall.Kill(os.Getpid(), s)
	select {
	case <-liveSigs:
	case <-time.After(livePatience):
	}
	time.Sleep(5 * time.Millisecond) // the order in which receivers get it is not fixed
}

// liveTLS makes certificates.
func liveTLS(c *run.Ctx) (cert, key, other string) {
	l := &liveCerts
	l.Do(func() {
		for i := 0; i < 2; i++ {
			k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			if err != nil {
				c.Errorf("%v", err)
				return
			}
			t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour)}
			b, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
			if err != nil {
				c.Errorf("%v", err)
				return
			}
			kb, _ := x509.MarshalECPrivateKey(k)
			cp, kp := filepath.Join(c.Scratch, fmt.Sprintf("cert%d.pem", i)), filepath.Join(c.Scratch, fmt.Sprintf("key%d.pem", i))
			writeFile(cp, string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: b})))
			writeFile(kp, string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})))
			if i == 0 {
				l.cert, l.key = cp, kp
			} else {
				l.other = kp
			}
		}
	})
	return l.cert, l.key, l.other
}

// liveListen completes cfg with listeners of the given kind: plain, tls or both.
func liveListen(c *run.Ctx, cfg *server.Config, kind string) {
	host := liveHost()
	if kind == "plain" || kind == "both" {
		cfg.LDAPListenAddr = host + ":10389"
	}
	if kind == "tls" || kind == "both" {
		cfg.LDAPSListenAddr = host + ":10636"
		cfg.TLSCertFile, cfg.TLSKeyFile, _ = liveTLS(c)
	}
}

// liveRun starts a server without waiting for its listeners.
func liveRun(cfg server.Config, log logrus.FieldLogger) (*live, error) {
	liveSignals()
	l := &live{reg: prometheus.NewRegistry(), done: make(chan struct{}), addr: cfg.LDAPListenAddr, saddr: cfg.LDAPSListenAddr}
	cfg.Metrics = l.reg
	if log == nil {
		log = wire.Logger()
	}
	cfg.Logger = log
	s, err := wire.New(cfg)
	if err != nil {
		return nil, err
	}
	l.s, l.cfg = s, cfg
	go func() {
		l.err = s.Serve(context.Background())
		close(l.done)
	}()
	return l, nil
}

// liveStart starts a server and waits until it can be reached.
func liveStart(cfg server.Config, log logrus.FieldLogger) (*live, error) {
	l, err := liveRun(cfg, log)
	if err != nil {
		return nil, err
	}
	for _, a := range l.addrs() {
		end := time.Now().Add(livePatience)
		for {
			x, err := net.Dial("tcp", a)
			if err == nil {
				x.Close()
				break
			}
			select {
			case <-l.done:
				return l, fmt.Errorf("the server returns at once: %v", l.err)
			case <-time.After(time.Millisecond):
			}
			if time.Now().After(end) {
				return l, fmt.Errorf("the server does not listen on %s", a)
			}
		}
	}
	return l, nil
}

func (l *live) addrs() (r []string) {
	for _, a := range []string{l.addr, l.saddr} {
		if a != "" {
			r = append(r, a)
		}
	}
	return r
}

// wait waits for the end of the server.
func (l *live) wait() bool {
	select {
	case <-l.done:
		return true
	case <-time.After(livePatience):
		return false
	}
}

// open reports which addresses still accept connections.
func (l *live) open() string {
	for _, a := range l.addrs() {
		if x, err := net.DialTimeout("tcp", a, 5*time.Second); err == nil {
			x.Close()
			return a
		}
	}
	return ""
}

// close releases what the server leaves open.
func (l *live) close() {
	if l.cfg.BoltDBFile != "" {
		wire.CloseBolt(l.cfg.BoltDBFile)
	}
}

// liveDial connects a client, with TLS if secure.
func liveDial(addr string, secure bool) (net.Conn, error) {
	x, err := net.DialTimeout("tcp", addr, livePatience)
	if err != nil || !secure {
		return x, err
	}
	t := tls.Client(x, &tls.Config{InsecureSkipVerify: true})
	t.SetDeadline(time.Now().Add(livePatience))
	if err := t.Handshake(); err != nil {
		x.Close()
		return nil, err
	}
	t.SetDeadline(time.Time{})
	return t, nil
}
