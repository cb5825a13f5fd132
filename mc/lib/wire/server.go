package wire

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alexedwards/argon2id"
	"github.com/go-ldap/ldap/v3"
	"github.com/sirupsen/logrus"
	bolt "go.etcd.io/bbolt"
	"io/ioutil"
	"log"

	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/server/handler"
)

func init() {
	// Cheap password hashes; the format and code path stay the same.
	argon2id.DefaultParams.Memory = 8
	argon2id.DefaultParams.Iterations = 1
	argon2id.DefaultParams.Parallelism = 1
	ldap.Logger(log.New(ioutil.Discard, "", 0))
}

var newMu sync.Mutex // NewServer sets a package-level logger

// Logger is a logger that prints nothing.
func Logger() logrus.FieldLogger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.PanicLevel)
	if os.Getenv("MC_DEBUG") != "" {
		l.SetOutput(os.Stderr)
		l.SetLevel(logrus.DebugLevel)
	}
	return l
}

// Srv is a running server reachable through in-memory connections.
type Srv struct {
	S       *server.Server
	Handler handler.Handler
	Ln      *Listener
	Cfg     server.Config
	done    chan error
	cancel  context.CancelFunc
	mu      sync.Mutex
	conns   []*Client
	ctx     context.Context
	stopped atomic.Bool
}

// Register does what server.Serve does before listening.
func Register(ctx context.Context, s *server.Server) handler.Handler {
	h := s.LDAPHandler.WithContext(ctx)
	l := s.LDAPServer
	l.AddFunc("", h)
	l.BindFunc("", h)
	l.DeleteFunc("", h)
	l.ModifyFunc("", h)
	l.ModifyDNFunc("", h)
	l.PasswordExOpFunc("", h)
	l.SearchFunc("", h)
	l.CloseFunc("", h)
	return h
}

// New makes a server.
func New(cfg server.Config) (*server.Server, error) {
	newMu.Lock()
	defer newMu.Unlock()
	return server.NewServer(&cfg)
}

// Start runs a server.
func Start(cfg server.Config) (*Srv, error) {
	cfg.Logger = Logger()
	s, err := New(cfg)
	if err != nil {
		if cfg.BoltDBFile != "" {
			closeBolt(cfg.BoltDBFile)
		}
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	r := &Srv{S: s, Ln: NewListener(), Cfg: cfg, done: make(chan error, 1), cancel: cancel, ctx: ctx}
	r.Handler = Register(ctx, s)
	go func() { r.done <- s.LDAPServer.Serve(r.Ln) }()
	return r, nil
}

// Loopback is a usual client address.
var Loopback = Addr{"tcp", "127.0.0.1:40000"}

// Dial connects from a loopback address.
func (s *Srv) Dial() *Client { return s.DialFrom(Loopback) }

// DialFrom connects from the given address.
func (s *Srv) DialFrom(a net.Addr) *Client { return s.DialHooks(a, nil, 0) }

// DialHooks connects with hooks on the server side.
func (s *Srv) DialHooks(a net.Addr, h *Hooks, maxRead int) *Client {
	sc, c := Pipe(a)
	sc.Hooks, sc.MaxRead = h, maxRead
	select {
	case s.Ln.ch <- sc:
	case <-s.Ln.closed:
		c.Close()
	case <-time.After(DefaultTimeout):
		c.Close()
	}
	s.mu.Lock()
	s.conns = append(s.conns, c)
	s.mu.Unlock()
	return c
}

// Reload reloads the handler's files.
func (s *Srv) Reload() error { return s.Handler.Reload(s.ctx) }

// Stop ends the server, its connections and its database. It reports trouble doing so.
func (s *Srv) Stop() error {
	if s.stopped.Swap(true) {
		return nil
	}
	s.cancel()
	for _, c := range s.conns {
		c.Close()
	}
	close(s.S.LDAPServer.Quit)
	var err error
	select {
	case err = <-s.done:
	case <-time.After(DefaultTimeout):
		err = fmt.Errorf("server does not stop")
	}
	if s.Cfg.BoltDBFile != "" {
		if !closeBolt(s.Cfg.BoltDBFile) && err == nil {
			err = fmt.Errorf("database stays in use")
		}
	}
	return err
}

// CloseBolt closes the database on path.
func CloseBolt(path string) bool { return closeBolt(path) }

func closeBolt(path string) bool {
	ok := true
	for _, db := range bolt.VOpenDBs(path) {
		ch := make(chan struct{})
		go func() { db.Close(); close(ch) }()
		select {
		case <-ch:
		case <-time.After(DefaultTimeout):
			ok = false
		}
	}
	return ok
}

// BoltDB returns the open database on path.
func BoltDB(path string) *bolt.DB {
	l := bolt.VOpenDBs(path)
	if len(l) != 1 {
		return nil
	}
	return l[0]
}

// Connect hands a connection of the caller's own kind to the server.
func (s *Srv) Connect(c net.Conn) error {
	select {
	case s.Ln.ch <- c:
		return nil
	case <-s.Ln.closed:
		return fmt.Errorf("listener closed")
	case <-time.After(DefaultTimeout):
		return fmt.Errorf("connection not accepted")
	}
}
