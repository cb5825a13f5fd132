package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/libregraph/idm/server"
	"github.com/sirupsen/logrus"

	"idmverif/lib/dir"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

func init() {
	register(&run.Check{
		ID:    "C25",
		Level: "exploration",
		Rule:  "Five parts, each enumerated completely. States: every combination of backend, listeners, the state one client is in, how it leaves and the state another one is in, and of eighty clients in the same state; others must be served, the connections counted must be those left, and after a stop signal the serving call must return without error with all listeners closed. Signals: every sequence of reload and stop signals up to the length bound, arriving while the server is busy with the first one. Listeners: every way to fail of one or both of them. Accepting: every sequence up to the length bound of connections and temporary errors, and three hundred of them, ending in a stop with and without a connection accepted at that moment. Processes: the command itself with every combination of signals, client state and listeners, and with too few file descriptors. Non-trivial are cases with a client that is not idle, more than one signal or an error.",
		Assume: []string{
			"The serving call is told to stop by SIGINT or SIGTERM; it is documented to ignore its context.",
			"Connections that are open when the server stops may stay open until the process ends.",
			fmt.Sprintf("Prompt means within %s.", livePatience),
		},
		Explore: c25Explore,
		Replay:  replayOf(c25Judge),
	})
}

type c25Client struct {
	State string `json:"state"`
	Leave string `json:"leave"`
	TLS   bool   `json:"tls,omitempty"`
}

type c25Case struct {
	Part    string      `json:"part"`
	Backend string      `json:"backend,omitempty"`
	Listen  string      `json:"listen,omitempty"`
	Clients []c25Client `json:"clients,omitempty"`
	Signals []string    `json:"signals,omitempty"`
	Stopped bool        `json:"stopped,omitempty"` // the process is suspended while signals arrive
	Err     string      `json:"err,omitempty"`
	Script  []string    `json:"script,omitempty"`
}

var c25Sig = map[string]syscall.Signal{"HUP": syscall.SIGHUP, "TERM": syscall.SIGTERM, "INT": syscall.SIGINT}

const c25User, c25PW = "cn=u,dc=x", "pw"

func c25Entries() []dir.SeedEntry {
	big := []string{"objectClass", "person", "cn", "big"}
	for i := 0; i < 40; i++ { // two megabytes
		big = append(big, "description", fmt.Sprint(i)+strings.Repeat("x", 50000))
	}
	return append(dir.Standard(), dir.E(c25User, "objectClass", "person", "cn", "u", "userPassword", c25PW), dir.E("cn=big,dc=x", big...))
}

var c25Once sync.Once
var c25Content []byte

// c25Config makes a configuration in a directory of its own.
func c25Config(c *run.Ctx, slot int, backend string) server.Config {
	d := filepath.Join(c.Scratch, "c25")
	c25Once.Do(func() {
		os.MkdirAll(d, 0o755)
		writeFile(filepath.Join(d, "main.ldif"), ldifText(c25Entries()))
		b, err := dir.Seed(filepath.Join(d, "seed.db"), dir.Base, c25Entries())
		if err != nil {
			c.Errorf("%v", err)
		}
		c25Content = b
	})
	if backend == "ldif" {
		return server.Config{LDAPHandler: "ldif", LDAPBaseDN: dir.Base, LDAPAdminDN: dir.AdminDN, LDIFMain: filepath.Join(d, "main.ldif")}
	}
	p := filepath.Join(d, fmt.Sprintf("%d.db", slot))
	if err := writeBytes(p, c25Content); err != nil {
		c.Errorf("%v", err)
	}
	return dir.Config(p)
}

// c25States are the states of a session. after says how many connections remain if the client stays and if it closes its
// side for writing: 1 yes, 0 no, -1 either.
var c25States = []struct {
	name        string
	stays, half int
	tls         int // 1 only with TLS
}{
	{"connected", 1, 0, 0},
	{"header", 1, 0, 0},
	{"half", 1, 0, 0},
	{"bound", 1, 0, 0},
	{"refused", 1, 0, 0},
	{"searched", 1, 0, 0},
	{"unread", 1, -1, 0},
	{"paged", 1, 0, 0},
	{"garbage", 0, 0, 0},
	{"unbound", 0, 0, 0},
	{"abandoned", -1, 0, 0},
	{"raw", 1, 0, 1},
	{"hello", 1, 0, 1},
	{"plaintext", 0, 0, 1},
}

// c25Session is a client in some state.
type c25Session struct {
	conn, raw net.Conn
	cl        *wire.Client
	tls       bool
}

// c25Enter brings a new client into a state.
func c25Enter(addr string, k c25Client) (*c25Session, string) {
	s := &c25Session{tls: k.TLS}
	var err error
	if k.State == "raw" || k.State == "hello" || k.State == "plaintext" {
		s.conn, err = liveDial(addr, false)
	} else {
		s.conn, err = liveDial(addr, k.TLS)
	}
	if err != nil {
		return nil, "a client cannot connect: " + err.Error()
	}
	s.raw = s.conn
	if t, ok := s.conn.(*tls.Conn); ok {
		s.raw = t.NetConn()
	}
	s.cl = wire.NetClient(s.conn)
	bind := wire.Msg(1, wire.BindOp(c25User, c25PW)).Bytes()
	login := func() string {
		if r := s.cl.Bind(c25User, c25PW); r.Code != 0 {
			return fmt.Sprintf("a client cannot bind: %d %s", r.Code, bad(r))
		}
		return ""
	}
	search := wire.SearchOp("cn=big,dc=x", 0, 0, false, wire.FPresent("objectClass"), nil)
	switch k.State {
	case "header":
		s.cl.Send(bind[:1])
	case "half":
		s.cl.Send(bind[:len(bind)/2])
	case "bound":
		return s, login()
	case "refused":
		if r := s.cl.Bind(c25User, "wrong"); r.Code <= 0 {
			return s, fmt.Sprintf("bind with a wrong password: %d %s", r.Code, bad(r))
		}
	case "searched":
		if w := login(); w != "" {
			return s, w
		}
		if r := s.cl.Do(search); r.Code != 0 || len(r.Entries) != 1 {
			return s, fmt.Sprintf("search: %d %s, %d entries", r.Code, bad(r), len(r.Entries))
		}
	case "unread":
		if w := login(); w != "" {
			return s, w
		}
		for i := 0; i < 12; i++ {
			s.cl.Send(wire.Msg(int64(10+i), search).Bytes())
		}
		time.Sleep(20 * time.Millisecond)
	case "paged":
		if w := login(); w != "" {
			return s, w
		}
		if r := s.cl.Do(wire.SearchOp("dc=x", 2, 0, false, wire.FPresent("objectClass"), nil), wire.Paging(1, nil)); r.Code != 0 {
			return s, fmt.Sprintf("paged search: %d %s", r.Code, bad(r))
		}
	case "garbage":
		s.cl.Send([]byte{4, 2, 'a', 'a'})
	case "unbound":
		if w := login(); w != "" {
			return s, w
		}
		s.cl.Send(wire.Msg(9, wire.UnbindOp()).Bytes())
	case "abandoned":
		s.cl.Send(wire.Msg(9, wire.AbandonOp(1)).Bytes())
	case "hello":
		s.cl.Send([]byte{0x16, 3, 1, 1, 0x20, 1, 0, 1, 0x1c, 3, 3})
	case "plaintext":
		s.cl.Send(bind)
	}
	return s, ""
}

// leave ends the session the given way.
func (s *c25Session) leave(how string) {
	switch how {
	case "close":
		s.conn.Close()
	case "reset":
		s.raw.(*net.TCPConn).SetLinger(0)
		s.raw.Close()
	case "half":
		if t, ok := s.conn.(*tls.Conn); ok {
			t.CloseWrite()
		}
		s.raw.(*net.TCPConn).CloseWrite()
	}
}

// c25Left is how many connections of k remain.
func c25Left(k c25Client) (lo, hi int64) {
	for _, s := range c25States {
		if s.name != k.State {
			continue
		}
		n := 0
		switch k.Leave {
		case "stay":
			n = s.stays
		case "half":
			n = s.half
		}
		if n < 0 {
			return 0, 1
		}
		return int64(n), int64(n)
	}
	return 0, 1
}

// c25Probe checks that the server serves new connections.
func c25Probe(addr string, secure bool) string {
	x, err := liveDial(addr, secure)
	if err != nil {
		return "another client cannot connect: " + err.Error()
	}
	defer x.Close()
	cl := wire.NetClient(x)
	if r := cl.Bind(c25User, c25PW); r.Code != 0 {
		return fmt.Sprintf("another client cannot bind: %d %s", r.Code, bad(r))
	}
	if r := cl.Search(c25User, 0, wire.FPresent("objectClass")); r.Code != 0 || len(r.Entries) != 1 {
		return fmt.Sprintf("another client cannot search: %d %s", r.Code, bad(r))
	}
	return ""
}

type c25Run struct {
	k    c25Case
	l    *live
	s    []*c25Session
	what string
}

// prepare starts a server and its clients.
func (x *c25Run) prepare(c *run.Ctx, slot int) {
	cfg := c25Config(c, slot, x.k.Backend)
	liveListen(c, &cfg, x.k.Listen)
	l, err := liveStart(cfg, nil)
	x.l = l
	if err != nil {
		x.what = "start: " + err.Error()
		return
	}
	addr := func(secure bool) string {
		if secure {
			return l.saddr
		}
		return l.addr
	}
	var lo, hi int64
	for _, k := range x.k.Clients {
		s, what := c25Enter(addr(k.TLS), k)
		if s != nil {
			x.s = append(x.s, s)
		}
		if what != "" {
			x.what = what
			return
		}
		a, b := c25Left(k)
		lo, hi = lo+a, hi+b
	}
	for i, k := range x.k.Clients {
		x.s[i].leave(k.Leave)
	}
	for i, k := range x.k.Clients {
		if k.Leave == "stay" && (k.State == "bound" || k.State == "searched" || k.State == "paged") {
			if r := x.s[i].cl.Search(c25User, 0, wire.FPresent("objectClass")); r.Code != 0 || len(r.Entries) != 1 {
				x.what = fmt.Sprintf("client %d is not served any more: %d %s", i, r.Code, bad(r))
				return
			}
		}
	}
	for _, secure := range []bool{false, true} {
		if addr(secure) != "" {
			if x.what = c25Probe(addr(secure), secure); x.what != "" {
				return
			}
		}
	}
	end := time.Now().Add(livePatience)
	for {
		n := c24Read(l.s)[cCur]
		if n >= lo && n <= hi {
			break
		}
		if time.Now().After(end) {
			x.what = fmt.Sprintf("%d connections are held, should be %d to %d", n, lo, hi)
			return
		}
		time.Sleep(time.Millisecond)
	}
}

// finish judges the end of the server after the signal.
func (x *c25Run) finish() {
	if x.what == "" {
		if !x.l.wait() {
			x.what = "the server does not stop"
		} else if x.l.err != nil {
			x.what = "stopping fails: " + x.l.err.Error()
		} else if a := x.l.open(); a != "" {
			x.what = a + " still accepts connections after the server returned"
		}
	}
	for _, s := range x.s {
		s.raw.(*net.TCPConn).SetLinger(0)
		s.raw.Close()
	}
	if x.l != nil {
		x.l.close()
	}
}

// c25Batch runs cases at the same time; the signal of the first one stops them all.
func c25Batch(c *run.Ctx, ks []c25Case) []*c25Run {
	xs := make([]*c25Run, len(ks))
	var wg sync.WaitGroup
	for i := range ks {
		xs[i] = &c25Run{k: ks[i]}
		wg.Add(1)
		go func() { defer wg.Done(); xs[i].prepare(c, i) }()
	}
	wg.Wait()
	liveRaise(c25Sig[ks[0].Signals[0]])
	for _, x := range xs {
		wg.Add(1)
		go func() { defer wg.Done(); x.finish() }()
	}
	wg.Wait()
	return xs
}

// c25Block is a hook that stops whoever logs something.
type c25Block struct {
	mu    sync.Mutex
	armed bool
	gate  chan struct{}
}

func (b *c25Block) Levels() []logrus.Level { return logrus.AllLevels }
func (b *c25Block) Fire(*logrus.Entry) error {
	b.mu.Lock()
	a := b.armed
	b.mu.Unlock()
	if a {
		<-b.gate
	}
	return nil
}

// c25Signals sends signals to a server that is busy with the first one.
func c25Signals(c *run.Ctx, k c25Case) string {
	cfg := c25Config(c, 1000, k.Backend)
	liveListen(c, &cfg, k.Listen)
	log := logrus.New()
	log.SetOutput(io.Discard)
	log.SetLevel(logrus.DebugLevel)
	b := &c25Block{gate: make(chan struct{})}
	log.AddHook(b)
	l, err := liveStart(cfg, log)
	if l != nil {
		defer l.close()
	}
	if err != nil {
		return "start: " + err.Error()
	}
	if what := c25Probe(l.addrs()[0], k.Listen == "tls"); what != "" {
		return what
	}
	b.mu.Lock()
	b.armed = true
	b.mu.Unlock()
	for _, s := range k.Signals {
		liveRaise(c25Sig[s])
	}
	b.mu.Lock()
	b.armed = false
	b.mu.Unlock()
	close(b.gate)
	if !l.wait() {
		liveRaise(syscall.SIGTERM)
		l.wait()
		return "the server does not stop"
	}
	if l.err != nil {
		return "stopping fails: " + l.err.Error()
	}
	stops := 0
	for _, s := range k.Signals {
		if s != "HUP" {
			stops++
		}
	}
	a := l.open()
	for end := time.Now().Add(livePatience); a != "" && stops > 1 && time.Now().Before(end); a = l.open() {
		time.Sleep(time.Millisecond) // a second signal makes the server return before everything is closed
	}
	if a != "" {
		return a + " still accepts connections after the server returned"
	}
	return ""
}

var c25Errs = []string{"plain in use", "tls in use", "both in use", "plain in use, tls good", "plain good, tls in use", "plain address", "plain port", "tls address", "certificate missing", "key missing", "certificate broken", "key broken", "other key", "plain good, certificate missing", "plain in use, certificate missing", "both the same"}

// c25Break makes the listeners of cfg fail as said. The result must be closed.
func c25Break(c *run.Ctx, cfg *server.Config, how string) []net.Listener {
	kind := "both"
	if !strings.Contains(how, "both") && !strings.Contains(how, ",") {
		kind = "tls"
		if strings.HasPrefix(how, "plain") {
			kind = "plain"
		}
	}
	liveListen(c, cfg, kind)
	var ls []net.Listener
	use := func(a string) {
		if l, err := net.Listen("tcp", a); err == nil {
			ls = append(ls, l)
		}
	}
	bad := filepath.Join(c.Scratch, "bad.pem")
	if _, err := os.Stat(bad); err != nil {
		writeFile(bad, "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n")
	}
	_, _, other := liveTLS(c)
	for _, h := range strings.Split(how, ", ") {
		switch h {
		case "plain in use":
			use(cfg.LDAPListenAddr)
		case "tls in use":
			use(cfg.LDAPSListenAddr)
		case "both in use":
			use(cfg.LDAPListenAddr)
			use(cfg.LDAPSListenAddr)
		case "plain address":
			cfg.LDAPListenAddr = "nonsense"
		case "plain port":
			cfg.LDAPListenAddr = "127.0.0.1:99999"
		case "tls address":
			cfg.LDAPSListenAddr = "nonsense"
		case "certificate missing":
			cfg.TLSCertFile += ".none"
		case "key missing":
			cfg.TLSKeyFile += ".none"
		case "certificate broken":
			cfg.TLSCertFile = bad
		case "key broken":
			cfg.TLSKeyFile = bad
		case "other key":
			cfg.TLSKeyFile = other
		case "both the same":
			cfg.LDAPSListenAddr = cfg.LDAPListenAddr
		}
	}
	return ls
}

// c25Error checks that a listener that cannot be opened ends the server with an error.
func c25Error(c *run.Ctx, w int, k c25Case) string {
	cfg := c25Config(c, 2000+w, k.Backend)
	for _, l := range c25Break(c, &cfg, k.Err) {
		defer l.Close()
	}
	l, err := liveRun(cfg, nil)
	if err != nil {
		return "" // refused earlier
	}
	defer l.close()
	if !l.wait() {
		return "the server does not return"
	}
	if l.err == nil {
		return "the server returns without an error"
	}
	for _, a := range l.addrs() {
		if strings.Contains(k.Err, "good") {
			x, err := net.Dial("tcp", a)
			if err != nil {
				continue
			}
			// Somebody listens there; it must be us.
			x.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
			x.Close()
			if !strings.Contains(k.Err, "in use") || strings.HasPrefix(k.Err, "plain good") == (a == l.addr) {
				return a + " is still open after the server returned"
			}
		}
	}
	return ""
}

// c25Listener accepts what the script says.
type c25Listener struct {
	script []string
	conns  chan net.Conn
	late   net.Conn // returned in spite of being closed
	closed chan struct{}
	once   sync.Once
	waits  chan struct{} // Accept has come to the end of the script
	wonce  sync.Once
}

func (l *c25Listener) Accept() (net.Conn, error) {
	for len(l.script) > 0 {
		e := l.script[0]
		l.script = l.script[1:]
		var n error
		switch e {
		case "conn":
			return <-l.conns, nil
		case "EMFILE":
			n = syscall.EMFILE
		case "ENFILE":
			n = syscall.ENFILE
		case "broken":
			n = syscall.EINVAL
		default:
			continue
		}
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", n)}
	}
	l.wonce.Do(func() { close(l.waits) })
	<-l.closed
	if l.late != nil {
		x := l.late
		l.late = nil
		return x, nil
	}
	return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
}
func (l *c25Listener) Close() error   { l.once.Do(func() { close(l.closed) }); return nil }
func (l *c25Listener) Addr() net.Addr { return wire.Addr{Net: "tcp", S: "127.0.0.1:389"} }

// c25Accept runs the accepting loop with a script; "late" is a connection accepted while the listener is closed.
func c25Accept(c *run.Ctx, w int, k c25Case) string {
	cfg := c25Config(c, 3000+w, k.Backend)
	cfg.Logger = wire.Logger()
	s, err := wire.New(cfg)
	if err != nil {
		return "start: " + err.Error()
	}
	if cfg.BoltDBFile != "" {
		defer wire.CloseBolt(cfg.BoltDBFile)
	}
	wire.Register(context.Background(), s)
	ln := &c25Listener{script: append([]string{}, k.Script...), conns: make(chan net.Conn, len(k.Script)), closed: make(chan struct{}), waits: make(chan struct{})}
	var cls []*wire.Client
	var late *wire.Client
	for _, e := range k.Script {
		switch e {
		case "conn":
			sc, cl := wire.Pipe(wire.Loopback)
			ln.conns <- sc
			cls = append(cls, cl)
		case "late":
			sc, cl := wire.Pipe(wire.Loopback)
			ln.late, late = sc, cl
		}
	}
	done := make(chan error, 1)
	go func() { done <- s.LDAPServer.Serve(ln) }()
	dead := false // nothing can be expected of a broken listener
	i := 0
	for _, e := range k.Script {
		if e == "broken" {
			dead = true
		}
		if e == "conn" {
			if !dead {
				if r := cls[i].Bind(c25User, c25PW); r.Code != 0 {
					return fmt.Sprintf("connection %d is not served: %d %s", i, r.Code, bad(r))
				}
			}
			i++
		}
	}
	if !dead {
		select {
		case <-ln.waits:
		case <-time.After(livePatience):
			return "the server stops accepting connections"
		}
	}
	close(s.LDAPServer.Quit)
	select {
	case err := <-done:
		if err != nil {
			return "stopping fails: " + err.Error()
		}
	case <-time.After(livePatience):
		return "the server does not stop"
	}
	select {
	case <-ln.closed:
	default:
		return "the listener stays open"
	}
	if late != nil && !dead {
		// Served or closed, but not forgotten.
		late.Timeout = livePatience
		if r := late.Bind(c25User, c25PW); r.Code == wire.CodeTimeout {
			return "a connection accepted while the server stops is neither served nor closed"
		}
	}
	for i, cl := range cls {
		cl.Close()
		_ = i
	}
	if late != nil {
		late.Close()
	}
	return ""
}

// c25Process runs the command.
func c25Process(c *run.Ctx, w int, k c25Case) string {
	cfg := c25Config(c, 4000+w, k.Backend)
	if k.Err != "" && k.Err != "descriptors" {
		for _, l := range c25Break(c, &cfg, k.Err) {
			defer l.Close()
		}
	} else {
		liveListen(c, &cfg, k.Listen)
	}
	args := []string{"serve", "--ldap-handler", cfg.LDAPHandler, "--ldap-base-dn", cfg.LDAPBaseDN, "--ldap-admin-dn", cfg.LDAPAdminDN, "--log-level", "info",
		"--ldap-listen", cfg.LDAPListenAddr, "--ldaps-listen", cfg.LDAPSListenAddr, "--tls-cert-file", cfg.TLSCertFile, "--tls-key-file", cfg.TLSKeyFile}
	if cfg.BoltDBFile != "" {
		args = append(args, "--boltdb-file", cfg.BoltDBFile)
	} else {
		args = append(args, "--ldif-main", cfg.LDIFMain)
	}
	cmd := exec.Command(os.Getenv("IDMD"), args...)
	if k.Err == "descriptors" {
		cmd = exec.Command("/bin/sh", append([]string{"-c", `ulimit -n 40; exec "$0" "$@"`, os.Getenv("IDMD")}, args...)...)
	}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var log bytes.Buffer
	cmd.Stderr = &log
	if err := cmd.Start(); err != nil {
		c.Errorf("idmd: %v", err)
		return ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	defer func() {
		cmd.Process.Kill()
	}()
	wait := func() (int, bool) {
		select {
		case err := <-done:
			var x *exec.ExitError
			if errors.As(err, &x) {
				return x.ExitCode(), true
			}
			return 0, true
		case <-time.After(livePatience):
			return 0, false
		}
	}
	if k.Err != "" && k.Err != "descriptors" {
		code, ok := wait()
		switch {
		case !ok:
			return "the command does not end"
		case code == 0 || crashed(log.String(), code):
			return fmt.Sprintf("the command ends with status %d: %s", code, trim(log.String(), 300))
		}
		return ""
	}
	l := &live{addr: cfg.LDAPListenAddr, saddr: cfg.LDAPSListenAddr}
	end := time.Now().Add(livePatience)
	for _, a := range l.addrs() {
		for {
			if x, err := net.Dial("tcp", a); err == nil {
				x.Close()
				break
			}
			select {
			case <-done:
				return "the command ends at once: " + trim(log.String(), 300)
			case <-time.After(time.Millisecond):
			}
			if time.Now().After(end) {
				return "the command does not listen"
			}
		}
	}
	probe := func() string {
		for i, a := range []string{l.addr, l.saddr} {
			if a != "" {
				if what := c25Probe(a, i == 1); what != "" {
					return what
				}
			}
		}
		return ""
	}
	if what := probe(); what != "" {
		return what
	}
	if k.Err == "descriptors" {
		var cs []net.Conn
		for i := 0; i < 60; i++ {
			if x, err := net.DialTimeout("tcp", l.addrs()[0], livePatience); err == nil {
				cs = append(cs, x)
			}
		}
		time.Sleep(20 * time.Millisecond)
		for _, x := range cs {
			x.Close()
		}
		if what := probe(); what != "" {
			return "after more clients than descriptors came and went: " + what
		}
	}
	for _, cl := range k.Clients {
		a := l.addr
		if cl.TLS {
			a = l.saddr
		}
		s, what := c25Enter(a, cl)
		if s != nil {
			defer s.conn.Close()
		}
		if what != "" {
			return what
		}
		s.leave(cl.Leave)
	}
	if k.Stopped {
		cmd.Process.Signal(syscall.SIGSTOP)
		time.Sleep(5 * time.Millisecond)
	}
	for _, s := range k.Signals {
		cmd.Process.Signal(c25Sig[s])
		if !k.Stopped {
			time.Sleep(time.Millisecond)
		}
	}
	if k.Stopped {
		cmd.Process.Signal(syscall.SIGCONT)
	}
	code, ok := wait()
	if !ok {
		return "the command does not stop"
	}
	if code != 0 {
		return fmt.Sprintf("the command ends with status %d: %s", code, trim(log.String(), 300))
	}
	return ""
}

func c25Judge(c *run.Ctx, w int, k c25Case) string {
	switch k.Part {
	case "states":
		return c25Batch(c, []c25Case{k})[0].what
	case "signals":
		return c25Signals(c, k)
	case "listeners":
		return c25Error(c, w, k)
	case "accepting":
		return c25Accept(c, w, k)
	}
	return c25Process(c, w, k)
}

func c25Explore(c *run.Ctx) {
	backends := []string{"boltdb", "ldif"}
	leaves := []string{"stay", "close", "reset", "half"}
	report := func(k c25Case, what string) {
		c.Evals.Add(1)
		nontrivial := k.Err != "" || len(k.Signals) > 1 || len(k.Script) > 1
		for _, x := range k.Clients {
			nontrivial = nontrivial || x.State != "connected"
		}
		if nontrivial {
			c.Nontrivial.Add(1)
		}
		if what != "" {
			c.Violation(keyOf(k), what, k)
		}
	}
	// Accepting.
	var cases []c25Case
	depth := 4
	if c.Thorough {
		depth = 6
	}
	var scripts func(s []string)
	scripts = func(s []string) {
		for _, b := range backends {
			if b == "boltdb" || len(s) < 3 {
				cases = append(cases, c25Case{Part: "accepting", Backend: b, Script: append([]string{}, s...)})
				cases = append(cases, c25Case{Part: "accepting", Backend: b, Script: append(append([]string{}, s...), "late")})
			}
		}
		if len(s) == depth {
			return
		}
		for _, e := range []string{"conn", "EMFILE", "ENFILE", "broken"} {
			if len(s) > 0 && s[len(s)-1] == "broken" {
				continue
			}
			scripts(append(s, e))
		}
	}
	scripts(nil)
	// Many connections, one after the other served and kept.
	for _, b := range backends {
		for _, e := range [][]string{{"conn"}, {"conn", "conn", "conn", "conn", "conn", "conn", "conn", "EMFILE"}} {
			var s []string
			for len(s) < 300 {
				s = append(s, e...)
			}
			cases = append(cases, c25Case{Part: "accepting", Backend: b, Script: s}, c25Case{Part: "accepting", Backend: b, Script: append(s, "late")})
		}
	}
	// Listeners.
	for _, b := range backends {
		for _, e := range c25Errs {
			cases = append(cases, c25Case{Part: "listeners", Backend: b, Err: e})
		}
	}
	// Processes.
	for _, b := range backends {
		for _, l := range []string{"plain", "tls", "both"} {
			secure := l == "tls"
			for _, sig := range [][]string{{"TERM"}, {"INT"}, {"TERM", "TERM"}, {"HUP", "TERM"}, {"HUP", "INT"}, {"HUP", "HUP", "TERM"}} {
				for _, st := range []bool{false, true} {
					for _, cl := range [][]c25Client{nil, {{"bound", "stay", secure}}, {{"half", "stay", secure}}, {{"unread", "stay", secure}}} {
						if !c.Thorough && cl != nil && (len(sig) > 1 || st) {
							continue
						}
						cases = append(cases, c25Case{Part: "processes", Backend: b, Listen: l, Clients: cl, Signals: sig, Stopped: st})
					}
				}
			}
			cases = append(cases, c25Case{Part: "processes", Backend: b, Listen: l, Err: "descriptors", Signals: []string{"TERM"}})
		}
		for _, e := range c25Errs {
			cases = append(cases, c25Case{Part: "processes", Backend: b, Err: e})
		}
	}
	parts := map[string]int{}
	for _, k := range cases {
		parts[k.Part]++
	}
	c.Par(len(cases), func(w, i int) {
		k := cases[i]
		c.Announce(w, k)
		report(k, c25Judge(c, w, k))
		if i%97 == 5 {
			c.Sample(k)
		}
	})
	// Signals.
	var seqs [][]string
	n := 3
	if c.Thorough {
		n = 5
	}
	for i := 0; i <= n; i++ {
		var s []string
		for j := 0; j < i; j++ {
			s = append(s, "HUP")
		}
		for _, e := range [][]string{{"TERM"}, {"INT"}, {"TERM", "HUP"}, {"TERM", "TERM"}, {"TERM", "INT"}} {
			seqs = append(seqs, append(append([]string{}, s...), e...))
		}
	}
	for _, b := range backends {
		for _, l := range []string{"plain", "tls", "both"} {
			for _, s := range seqs {
				if c.Expired() || c.Enough() {
					return
				}
				if l != "plain" && !c.Thorough && len(s) > 2 {
					continue
				}
				k := c25Case{Part: "signals", Backend: b, Listen: l, Signals: s}
				parts[k.Part]++
				c.Announce(0, k)
				report(k, c25Signals(c, k))
			}
		}
	}
	// States.
	var states []c25Case
	for _, b := range backends {
		for _, l := range []string{"plain", "tls", "both"} {
			for _, secure := range []bool{false, true} {
				if l == "plain" && secure || l == "tls" && !secure {
					continue
				}
				var others [][]c25Client
				others = append(others, nil)
				for _, s := range c25States {
					if s.tls == 1 && l == "plain" {
						continue
					}
					for _, how := range leaves {
						if !c.Thorough && (how != "stay" || s.name != "bound" && s.name != "half" && s.name != "unread") {
							continue
						}
						if s.name == "unread" && c.Thorough && how == "half" {
							continue
						}
						others = append(others, []c25Client{{s.name, how, l == "tls" || l == "both" && (!secure || s.tls == 1)}})
					}
				}
				for _, s := range c25States {
					if s.tls == 1 && !secure {
						continue
					}
					for _, how := range leaves {
						for _, o := range others {
							k := c25Case{Part: "states", Backend: b, Listen: l, Clients: append([]c25Client{{s.name, how, secure}}, o...), Signals: []string{"TERM"}}
							states = append(states, k)
						}
					}
				}
			}
		}
	}
	// Many clients in the same state next to one that is served.
	single := len(states)
	for _, b := range backends {
		for _, s := range c25States {
			if s.tls == 1 || s.name == "unread" {
				continue
			}
			for _, how := range leaves {
				k := c25Case{Part: "states", Backend: b, Listen: "plain", Clients: []c25Client{{"searched", "stay", false}}, Signals: []string{"TERM"}}
				for i := 0; i < 80; i++ {
					k.Clients = append(k.Clients, c25Client{s.name, how, false})
				}
				states = append(states, k)
			}
		}
	}
	for i, size := 0, 0; i < len(states); i += size {
		size = 48
		if i >= single {
			size = 6
		} else if i+size > single {
			size = single - i
		}

		if c.Expired() || c.Enough() {
			break
		}
		ks := states[i:min(i+size, len(states))]
		for w := 0; w < min(c.Workers, len(ks)); w++ {
			c.Announce(w, ks[w])
		}
		for j, x := range c25Batch(c, ks) {
			parts["states"]++
			report(x.k, x.what)
			if (i+j)%499 == 7 {
				c.Sample(x.k)
			}
		}
	}
	for p, n := range parts {
		c.Extra("cases_"+p, n)
	}
}
