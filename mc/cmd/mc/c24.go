package main

import (
	"fmt"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/libregraph/idm/server"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/run"
	"idmverif/lib/vsched"
	"idmverif/lib/wire"
)

func init() {
	register(&run.Check{
		ID:    "C24",
		Level: "model_checking",
		Rule:  "Part one: every sequence, up to the depth bound, of connects, disconnects and requests of every kind on two connections, runs of three hundred rounds and many connections, for both backends, with the counters and the gathered metrics compared with a model after every event, and the same sequences with statistics disabled compared with their answers. Part two: every schedule within the deviation bounds of two or three connection goroutines, a goroutine that connects further clients and one that reads the counters. Counters read in the middle must lie between the events completed before and begun until then; in the end all are exact. States counts distinct counter values reached.",
		Assume: []string{
			"a reading taken while requests run need not show all counters at the same moment",
			"A request that cannot be decoded may or may not be counted; it must not change other counters.",
			"Extended, abandon and compare requests have no counter.",
		},
		Explore: c24Explore,
		Replay:  replayOf(c24Judge),
	})
}

type c24Case struct {
	Backend string       `json:"backend"`
	Off     bool         `json:"off,omitempty"` // statistics disabled
	Events  []string     `json:"events,omitempty"`
	Scen    string       `json:"scen,omitempty"`
	Devs    []vsched.Dev `json:"devs,omitempty"`
}

// c24Counts are the counters, in the order of c24Names.
type c24Counts [10]int64

var c24Names = [10]string{"connections", "current connections", "maximum connections", "adds", "binds", "deletes", "renames", "modifies", "unbinds", "searches"}

const (
	cConns = iota
	cCur
	cMax
	cAdds
	cBinds
	cDels
	cRens
	cMods
	cUnbinds
	cSearches
)

func c24Read(s *server.Server) c24Counts {
	x := s.LDAPServer.GetStats()
	return c24Counts{int64(x.Conns), int64(x.ConnsCurrent), int64(x.ConnsMax), int64(x.Adds), int64(x.Binds), int64(x.Deletes), int64(x.ModifyDNs), int64(x.Modifies), int64(x.Unbinds), int64(x.Searches)}
}

// c24Exported maps exported metrics to counters.
var c24Exported = map[string]int{
	"ldapserver_connections_total": cConns, "ldapserver_connections_current": cCur, "ldapserver_connections_max": cMax,
	"ldapserver_binds_total": cBinds, "ldapserver_unbinds_total": cUnbinds, "ldapserver_searches_total": cSearches,
}

func c24Value(m *dto.Metric) int64 {
	if m.Counter != nil {
		return int64(m.Counter.GetValue())
	}
	return int64(m.Gauge.GetValue())
}

// c24Gather reads the exported metrics.
func c24Gather(reg *prometheus.Registry) (map[int]int64, error) {
	fs, err := reg.Gather()
	if err != nil {
		return nil, err
	}
	r := map[int]int64{}
	for _, f := range fs {
		if i, ok := c24Exported[f.GetName()]; ok && len(f.Metric) == 1 {
			r[i] = c24Value(f.Metric[0])
		}
	}
	if len(r) != len(c24Exported) {
		return nil, fmt.Errorf("%d of %d metrics exported", len(r), len(c24Exported))
	}
	return r, nil
}

func (a c24Counts) diff(b c24Counts) string {
	s := ""
	for i := range a {
		if a[i] != b[i] {
			s += fmt.Sprintf("%s: %d instead of %d; ", c24Names[i], a[i], b[i])
		}
	}
	return s
}

// c24Kinds are the requests: what is sent, what it counts as (-1 nothing), whether the connection is closed by it.
var c24Kinds = []struct {
	name   string
	op     func() *ber.Node
	raw    []byte
	count  int
	closes bool
	maybe  bool // not decodable: may or may not be counted
}{
	{name: "bind", op: func() *ber.Node { return wire.BindOp(dir.AdminDN, dir.AdminPW) }, count: cBinds},
	{name: "wrong bind", op: func() *ber.Node { return wire.BindOp(dir.AdminDN, "no") }, count: cBinds},
	{name: "search", op: func() *ber.Node { return wire.SearchOp("dc=x", 2, 0, false, wire.FPresent("objectClass"), nil) }, count: cSearches, closes: true}, // refused unless bound
	{name: "add", op: func() *ber.Node {
		return wire.AddOp("cn=n,dc=x", []wire.Attr{{Name: "objectClass", Values: []string{"person"}}, {Name: "cn", Values: []string{"n"}}})
	}, count: cAdds},
	{name: "delete", op: func() *ber.Node { return wire.DelOp("cn=n,dc=x") }, count: cDels},
	{name: "rename", op: func() *ber.Node { return wire.ModDNOp("cn=n,dc=x", "cn=m", true, nil) }, count: cRens},
	{name: "modify", op: func() *ber.Node {
		return wire.ModifyOp("cn=n,dc=x", []wire.Change{{Op: 2, Attr: wire.Attr{Name: "sn", Values: []string{"s"}}}})
	}, count: cMods},
	{name: "password", op: func() *ber.Node { u, p := "cn=n,dc=x", "p"; return wire.PwModOp(&u, nil, &p, false) }, count: -1},
	{name: "unbind", op: wire.UnbindOp, count: cUnbinds, closes: true},
	{name: "compare", op: func() *ber.Node { return wire.CompareOp("dc=x", "dc", "x") }, count: -1, closes: true},
	{name: "unknown", op: func() *ber.Node { return ber.Cons(0x7e) }, count: -1, closes: true},
	{name: "garbage", raw: []byte{0x04, 0x02, 0x61, 0x61}, count: -1, closes: true},
	{name: "empty search", op: func() *ber.Node { return ber.Cons(wire.TSearch) }, count: cSearches, closes: true, maybe: true},
	{name: "empty add", op: func() *ber.Node { return ber.Cons(wire.TAdd) }, count: cAdds, maybe: true},
}

func c24Kind(name string) int {
	for i := range c24Kinds {
		if c24Kinds[i].name == name {
			return i
		}
	}
	panic(name)
}

func c24Start(c *run.Ctx, w int, backend string, off bool) (*wire.Srv, *prometheus.Registry, error) {
	var cfg server.Config
	if backend == "boltdb" {
		p := filepath.Join(c.Scratch, fmt.Sprintf("c24-%d.db", w))
		if err := writeBytes(p, c24Seed(c)); err != nil {
			return nil, nil, err
		}
		cfg = dir.Config(p)
	} else {
		p := filepath.Join(c.Scratch, "c24.ldif")
		c24LDIF.Do(func() { writeFile(p, ldifText(dir.Standard())) })
		cfg = server.Config{LDAPHandler: "ldif", LDAPBaseDN: dir.Base, LDAPAdminDN: dir.AdminDN, LDIFMain: p}
	}
	var reg *prometheus.Registry
	if !off {
		reg = prometheus.NewRegistry()
		cfg.Metrics = reg
	}
	s, err := wire.Start(cfg)
	return s, reg, err
}

var c24LDIF, c24Once sync.Once
var c24Content []byte

func c24Seed(c *run.Ctx) []byte {
	c24Once.Do(func() {
		b, err := dir.Seed(filepath.Join(c.Scratch, "c24-seed.db"), dir.Base, dir.Standard())
		if err != nil {
			c.Errorf("%v", err)
		}
		c24Content = b
	})
	return c24Content
}

// c24Settle waits until the counters are as expected. Closing is counted after the client can see it.
func c24Settle(s *server.Server, lo, hi c24Counts) (c24Counts, bool) {
	end := time.Now().Add(10 * time.Second)
	for n := 0; ; n++ {
		got := c24Read(s)
		ok := true
		for i := range got {
			ok = ok && got[i] >= lo[i] && got[i] <= hi[i]
		}
		if ok {
			return got, true
		}
		if time.Now().After(end) {
			return got, false
		}
		if n > 100 {
			time.Sleep(time.Millisecond)
		} else {
			runtime.Gosched()
		}
	}
}

// c24History plays events on two connections. It returns the answers.
func c24History(c *run.Ctx, w int, k c24Case, seen func(c24Counts)) (what string, answers []string) {
	s, reg, err := c24Start(c, w, k.Backend, k.Off)
	if err != nil {
		return "start: " + err.Error(), nil
	}
	defer s.Stop()
	var cl [26]*wire.Client
	var bound [26]bool
	var lo, hi c24Counts
	step := func(ev string) string {
		i := int(ev[0] - 'a')
		ev = ev[2:]
		switch ev {
		case "connect":
			if cl[i] != nil {
				return ""
			}
			cl[i] = s.Dial()
			bound[i] = false
			lo[cConns]++
			lo[cCur]++
			hi[cConns]++
			hi[cCur]++
			lo[cMax] = max(lo[cMax], lo[cCur])
			hi[cMax] = lo[cMax]
		case "close", "half", "break":
			if cl[i] == nil {
				return ""
			}
			switch ev {
			case "half":
				cl[i].Send(wire.Msg(1, wire.BindOp(dir.AdminDN, dir.AdminPW)).Bytes()[:9])
			case "break": // an answer that cannot be delivered
				cl[i].Break()
				cl[i].Send(wire.Msg(1, wire.BindOp(dir.AdminDN, "no")).Bytes())
				lo[cBinds]++
				hi[cBinds]++
			}
			if ev == "break" {
				// The server notices by itself.
				<-cl[i].Srv.Closed
			}
			cl[i].Close()
			cl[i] = nil
			lo[cCur]--
			hi[cCur]--
		default:
			if cl[i] == nil {
				return ""
			}
			kind := &c24Kinds[c24Kind(ev)]
			code := int64(0)
			if kind.raw != nil {
				cl[i].Send(kind.raw)
				code = cl[i].Await(0, 1).Code
			} else {
				op := kind.op()
				code = cl[i].Do(op).Code
			}
			answers = append(answers, fmt.Sprintf("%s %d", ev, code))
			if kind.count >= 0 {
				hi[kind.count]++
				if !kind.maybe {
					lo[kind.count]++
				}
			}
			if ev == "bind" {
				bound[i] = code == 0
			}
			if ev == "wrong bind" {
				bound[i] = false
			}
			if code == wire.CodeTimeout {
				return ev + " is not answered"
			}
			if kind.closes && !(ev == "search" && code == 0) || code < 0 {
				cl[i].Close()
				cl[i] = nil
				lo[cCur]--
				hi[cCur]--
			}
		}
		return ""
	}
	check := func(after string) string {
		if k.Off {
			return ""
		}
		got, ok := c24Settle(s.S, lo, hi)
		if !ok {
			return "after " + after + ": " + got.diff(lo)
		}
		if seen != nil {
			seen(got)
		}
		m, err := c24Gather(reg)
		if err != nil {
			return "after " + after + ": metrics: " + err.Error()
		}
		for i, v := range m {
			if v < lo[i] || v > hi[i] {
				return fmt.Sprintf("after %s: exported %s: %d instead of %d", after, c24Names[i], v, lo[i])
			}
		}
		return ""
	}
	for n, ev := range append(append([]string{}, k.Events...), "a connect", "a wrong bind") {
		if n >= len(k.Events) && cl[0] != nil && ev == "a connect" {
			continue
		}
		if what := step(ev); what != "" {
			return what, answers
		}
		if what := check(fmt.Sprintf("%s and %s", trim(strings.Join(k.Events[:min(n, len(k.Events), 50)], ", "), 300), ev)); what != "" {
			return what, answers
		}
	}
	if k.Off {
		var p any
		var zero c24Counts
		got := func() (g c24Counts) {
			defer func() { p = recover() }()
			return c24Read(s.S)
		}()
		if p != nil {
			return fmt.Sprintf("reading disabled statistics panics: %v", p), answers
		}
		if got != zero {
			return "disabled statistics count: " + got.diff(zero), answers
		}
	}
	return "", answers
}

func c24Judge(c *run.Ctx, w int, k c24Case) string {
	if k.Scen != "" {
		schedHook()
		_, what, _, _ := c24Exec(c, w, k)
		return what
	}
	what, ans := c24History(c, w, k, nil)
	if what == "" && k.Off {
		on := k
		on.Off = false
		_, ans2 := c24History(c, w, on, nil)
		if fmt.Sprint(ans) != fmt.Sprint(ans2) {
			what = fmt.Sprintf("answers without statistics %v, with statistics %v", ans, ans2)
		}
	}
	return what
}

// c24Scens: connections with their requests; "+" connections are made in the middle, "r" is a reader with that many rounds.
var c24Scens = []struct {
	name  string
	conns [][]string
	late  [][]string
	reads int
}{
	{"two binds", [][]string{{"wrong bind"}, {"wrong bind"}}, nil, 0},
	{"two binds and unbinds", [][]string{{"wrong bind", "unbind"}, {"wrong bind", "unbind"}}, nil, 0},
	{"two adds", [][]string{{"add"}, {"add"}}, nil, 0},
	{"two deletes", [][]string{{"delete"}, {"delete"}}, nil, 0},
	{"two renames", [][]string{{"rename"}, {"rename"}}, nil, 0},
	{"two modifies", [][]string{{"modify"}, {"modify"}}, nil, 0},
	{"two searches", [][]string{{"search"}, {"search"}}, nil, 0},
	{"add, bind, reader", [][]string{{"add"}, {"wrong bind"}}, nil, 2},
	{"delete, modify, reader", [][]string{{"delete"}, {"modify"}}, nil, 1},
	{"search, unbind, reader", [][]string{{"search"}, {"unbind"}}, nil, 1},
	{"rename, bind", [][]string{{"rename"}, {"wrong bind"}}, nil, 0},
	{"late connection", [][]string{{"unbind"}, {"wrong bind"}}, [][]string{{"unbind"}}, 0},
	{"late connection and reader", [][]string{{"unbind"}}, [][]string{{"wrong bind"}}, 1},
	{"three closes", [][]string{{"unbind"}, {"unbind"}, {"unbind"}}, nil, 0},
	{"bad requests", [][]string{{"empty search"}, {"garbage"}}, nil, 1},
}

// c24Exec runs one schedule.
func c24Exec(c *run.Ctx, w int, k c24Case) (r *vsched.Run, what, outcome string, overlap bool) {
	si := -1
	for i := range c24Scens {
		if c24Scens[i].name == k.Scen {
			si = i
		}
	}
	if si < 0 {
		return nil, "", "", false
	}
	sc := c24Scens[si]
	s, reg, err := c24Start(c, w, k.Backend, false)
	if err != nil {
		return nil, "start: " + err.Error(), "", false
	}
	defer s.Stop()
	r = vsched.New(k.Devs)
	defer r.Close()
	var want c24Counts // in the end
	var slack c24Counts
	mk := func(idx int, reqs []string) *schedConn {
		var ops []*ber.Node
		for _, q := range reqs {
			kind := &c24Kinds[c24Kind(q)]
			if kind.raw != nil {
				ops = append(ops, ber.Prim(0x99, nil))
			} else {
				ops = append(ops, kind.op())
			}
			if kind.count >= 0 {
				if kind.maybe {
					slack[kind.count]++
				} else {
					want[kind.count]++
				}
			}
		}
		x := newSchedConn(r, idx, nil, ops)
		for i, q := range reqs {
			if raw := c24Kinds[c24Kind(q)].raw; raw != nil {
				x.chunks[i] = raw
			}
		}
		want[cConns]++
		return x
	}
	n := 0
	var conns []*schedConn
	for _, l := range sc.conns {
		x := mk(n, l)
		n++
		conns = append(conns, x)
		if err := s.Connect(x); err != nil {
			return nil, err.Error(), "", false
		}
	}
	want[cMax] = int64(len(sc.conns))
	// All connections exist before the schedule begins.
	before := want
	before[cCur] = want[cMax]
	for i := cAdds; i < len(before); i++ {
		before[i] = 0
	}
	if got, ok := c24Settle(s.S, before, before); !ok {
		return nil, "connections at the start: " + got.diff(before), "", false
	}
	late := make([]*schedConn, len(sc.late))
	for i, l := range sc.late {
		late[i] = mk(n+1+i, l) // after the connecting thread
	}
	total := n
	maxHi := want[cMax] + int64(len(late))
	if len(late) > 0 {
		idx := n
		total++
		go func() {
			r.Gate(idx)
			defer vsched.Exit()
			for _, x := range late {
				vsched.Sync()
				arrived := r.Arrivals()
				if s.Connect(x) != nil {
					return
				}
				// The accepting goroutine runs on its own; it only has to wait if a thread holds a lock.
				for t := 0; r.Arrivals() == arrived; t++ {
					if t < 2000 {
						time.Sleep(time.Microsecond)
					} else {
						vsched.Yield(true)
					}
				}
			}
		}()
	}
	// begun counts the requests answered and received so far.
	begun := func() (lo, hi c24Counts) {
		for i, x := range append(append([]*schedConn{}, conns...), late...) {
			l := append(append([][]string{}, sc.conns...), sc.late...)[i]
			x.mu.Lock()
			for j, q := range l {
				kind := &c24Kinds[c24Kind(q)]
				if kind.count < 0 {
					continue
				}
				if j < len(x.ends) && !kind.maybe {
					lo[kind.count]++
				}
				if j < len(x.sent) {
					hi[kind.count]++
				}
			}
			x.mu.Unlock()
		}
		return
	}
	type reading struct{ lo, got, hi c24Counts }
	var reads []reading
	if sc.reads > 0 {
		idx := n + 1 + len(late)
		total++
		col := server.NewLDAPServerCollector(s.S.LDAPServer)
		go func() {
			r.Gate(idx)
			defer vsched.Exit()
			for i := 0; i < sc.reads; i++ {
				vsched.Sync()
				x := reading{}
				x.lo, _ = begun()
				x.got = c24Read(s.S)
				_, x.hi = begun()
				reads = append(reads, x)
				ch := make(chan prometheus.Metric, 16)
				col.Collect(ch)
				close(ch)
			}
		}()
	}
	if err := r.Start(total); err != nil {
		return nil, "not served: " + err.Error(), "", false
	}
	if r.Stuck != "" {
		return r, "requests never finish: " + r.Stuck, "", true
	}
	out := ""
	for i, x := range append(append([]*schedConn{}, conns...), late...) {
		l := append(append([][]string{}, sc.conns...), sc.late...)[i]
		as := x.answers()
		j := 0
		for _, q := range l {
			kind := &c24Kinds[c24Kind(q)]
			if kind.raw != nil || wire.RespTag(kind.op().Tag) == 0 {
				continue
			}
			if j >= len(as) || as[j].Code < 0 && !kind.maybe && !kind.closes {
				return r, fmt.Sprintf("connection %d: %s is not answered", i, q), "", true
			}
			j++
		}
	}
	lo, hi := want, want
	for i := range slack {
		hi[i] += slack[i]
	}
	hi[cMax] = maxHi
	got, ok := c24Settle(s.S, lo, hi)
	if !ok {
		return r, "in the end: " + got.diff(lo), "", true
	}
	m, err := c24Gather(reg)
	if err != nil {
		return r, "metrics: " + err.Error(), "", true
	}
	for i, v := range m {
		if v != got[i] {
			return r, fmt.Sprintf("exported %s: %d instead of %d", c24Names[i], v, got[i]), "", true
		}
	}
	for _, x := range reads {
		x.lo[cConns], x.hi[cConns] = int64(len(conns)), hi[cConns]
		x.lo[cMax], x.hi[cMax] = int64(len(conns)), maxHi
		x.hi[cCur] = maxHi
		for i := range x.got {
			if x.got[i] < x.lo[i] || x.got[i] > x.hi[i] {
				return r, fmt.Sprintf("%s read in between: %d, should be %d to %d", c24Names[i], x.got[i], x.lo[i], x.hi[i]), "", true
			}
		}
		if x.got[cCur] > got[cMax] {
			return r, fmt.Sprintf("%s read in between: %d, but in the end %s is %d", c24Names[cCur], x.got[cCur], c24Names[cMax], got[cMax]), "", true
		}
		out += fmt.Sprint(x.got)
	}
	return r, "", out + fmt.Sprint(got), true
}

func c24Explore(c *run.Ctx) {
	var mu sync.Mutex
	states := map[string]bool{}
	seen := func(x c24Counts) {
		mu.Lock()
		if k := fmt.Sprint(x); !states[k] {
			states[k] = true
			c.States.Add(1)
		}
		mu.Unlock()
	}
	// Part one.
	var evs []string
	for _, p := range []string{"a ", "b "} {
		for _, e := range []string{"connect", "close", "half", "break"} {
			evs = append(evs, p+e)
		}
		for _, k := range c24Kinds {
			if p == "a " || k.name == "bind" || k.name == "search" || k.name == "unbind" || k.name == "garbage" || c.Thorough {
				evs = append(evs, p+k.name)
			}
		}
	}
	var cases []c24Case
	var grow func(l []string, open [2]bool, depth int, backend string, off bool)
	grow = func(l []string, open [2]bool, depth int, backend string, off bool) {
		if len(l) > 0 && (depth == 0 || off) {
			cases = append(cases, c24Case{Backend: backend, Off: off, Events: append([]string{}, l...)})
		}
		if depth == 0 {
			return
		}
		for _, e := range evs {
			i := int(e[0] - 'a')
			if (e[2:] == "connect") == open[i] {
				continue // no effect
			}
			if i == 1 && e[2:] == "connect" && !open[0] && len(l) == 0 {
				continue // the other connection would do
			}
			o := open
			switch e[2:] {
			case "connect":
				o[i] = true
			case "close", "half", "break", "unbind", "compare", "unknown", "garbage":
				o[i] = false
			}
			grow(append(l, e), o, depth-1, backend, off)
		}
	}
	d1, d2, d3 := 5, 4, 4
	if c.Thorough {
		d1, d2, d3 = 6, 4, 4
	}
	grow(nil, [2]bool{}, d1, "boltdb", false)
	grow(nil, [2]bool{}, d2, "ldif", false)
	grow(nil, [2]bool{}, d3, "boltdb", true)
	grow(nil, [2]bool{}, d2, "ldif", true)
	// Long runs and many connections.
	for _, b := range []string{"boltdb", "ldif"} {
		for _, k := range c24Kinds {
			var l []string
			for i := 0; i < 300; i++ {
				l = append(l, "a connect", "a bind", "a "+k.name)
			}
			cases = append(cases, c24Case{Backend: b, Events: l})
		}
		var up, down []string
		for i := byte('a'); i <= 'z'; i++ {
			up, down = append(up, string(i)+" connect"), append(down, string(i)+" close")
		}
		l := append(append(append(up, down...), up...), down...)
		cases = append(cases, c24Case{Backend: b, Events: l})
	}
	c.Extra("histories", len(cases))
	c.Par(len(cases), func(w, i int) {
		k := cases[i]
		c.Announce(w, k)
		c.Evals.Add(1)
		c.Traces.Add(1)
		c.Trans.Add(int64(len(k.Events)))
		if len(k.Events) > 1 {
			c.Nontrivial.Add(1)
		}
		what, ans := c24History(c, w, k, seen)
		if what == "" && k.Off {
			on := k
			on.Off = false
			if _, a := c24History(c, w, on, nil); fmt.Sprint(ans) != fmt.Sprint(a) {
				what = fmt.Sprintf("answers without statistics %v, with statistics %v", ans, a)
			}
		}
		if what != "" {
			c.Violation(fmt.Sprint(k.Backend, k.Off, k.Events), what, k)
			return
		}
		if i%5003 == 0 {
			c.Sample(map[string]any{"case": k, "answers": ans})
		}
	})
	// Part two.
	type scen struct {
		name, backend string
		b             schedBounds
	}
	var scens []scen
	for _, s := range c24Scens {
		for _, be := range []string{"boltdb", "ldif"} {
			if be == "ldif" && !c.Thorough && s.reads == 0 {
				continue
			}
			b := schedBounds{pairs: [][2]int{{1, 1}, {0, 2}}, free: 1}
			if c.Thorough {
				b = schedBounds{pairs: [][2]int{{2, 2}, {0, 3}}, free: 2, loops: 1}
				if s.reads > 0 || len(s.late) > 0 || len(s.conns) > 2 {
					b.pairs = [][2]int{{1, 2}, {0, 3}}
				}
			}
			scens = append(scens, scen{s.name, be, b})
		}
	}
	var diverged, loose, schedules int64
	var again atomic.Int64
	per := map[string]int{}
	outs := map[string]map[string]bool{}
	schedExplore(c, len(scens), func(i int) schedBounds { return scens[i].b }, func(w, i int, devs []vsched.Dev) *vsched.Run {
		k := c24Case{Backend: scens[i].backend, Scen: scens[i].name, Devs: devs}
		c.Announce(w, k)
		r, what, out, overlap := c24Exec(c, w, k)
		for n := 0; n < 50 && what == "" && r != nil && r.Diverged; n++ {
			// The accepting goroutine is not scheduled; let it be at another place.
			again.Add(1)
			r, what, out, overlap = c24Exec(c, w, k)
		}
		c.Evals.Add(1)
		c.Traces.Add(1)
		if overlap && len(devs) > 0 {
			c.Nontrivial.Add(1)
		}
		if what != "" {
			c.Violation(k.Backend+" "+k.Scen, what, k)
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		schedules++
		if r != nil {
			c.Trans.Add(int64(r.Steps))
			if r.Diverged {
				diverged++
			}
			if r.Loose {
				loose++
			}
		}
		per[k.Scen]++
		if outs[k.Scen] == nil {
			outs[k.Scen] = map[string]bool{}
		}
		if !outs[k.Scen][out] {
			outs[k.Scen][out] = true
			if !states[out] {
				states[out] = true
				c.States.Add(1)
			}
			if len(devs) > 0 {
				c.Sample(map[string]any{"case": k, "outcome": out})
			}
		}
		return r
	})
	var l []string
	for k, n := range per {
		l = append(l, fmt.Sprintf("%s: %d schedules, %d outcomes", k, n, len(outs[k])))
	}
	sort.Strings(l)
	c.Extra("scenarios", l)
	c.Extra("schedules", schedules)
	c.Extra("diverged", diverged)
	c.Extra("waited_outside_of_the_scheduler", loose)
	c.Extra("instrumentation_level", vsched.Level)
	c.Extra("repeated", again.Load())
	if diverged > 0 {
		c.Incomplete(fmt.Sprintf("%d schedules could not be followed", diverged))
	}
	if vsched.Level != "2" {
		c.Incomplete("built with instrumentation level " + vsched.Level)
	}
}
