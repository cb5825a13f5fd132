package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/vsched"
	"idmverif/lib/wire"
)

func init() {
	register(&run.Check{
		ID:    "C04",
		Level: "model_checking",
		Rule:  "Scenarios are sets of two or three administrator or user connections with one or two requests each, taken from all pairs of a vocabulary of conflicting requests. For each scenario every schedule of the server's connection goroutines within the deviation bounds is executed on the real server; scheduling points are all statements of the repository's packages, all locks of the repository and of the database and all reads and writes of the connections. The answers and the final content must be those of some sequential execution on the reference tree that respects real time. States counts distinct (answers, final content) pairs per scenario; a schedule is non-trivial if the requests overlap in time.",
		Assume: []string{
			"Statements of libraries other than locks of the database run without interruption.",
			"Only success or failure of a request is compared, not the error code.",
		},
		Explore: c04Explore,
		Replay:  replayOf(c04Judge),
	})
}

type c04Case struct {
	Scen  string       `json:"scen"`
	Conns [][]int      `json:"conns"` // requests of each connection, indexes into c04Reqs
	Init  int          `json:"init"`
	Devs  []vsched.Dev `json:"devs,omitempty"`
}

// c04Req is a request of the vocabulary.
type c04Req struct {
	name   string
	op     *dir.Op
	search *c04Search
	bind   *[2]string
	as     string // connection is bound as this user, administrator if empty
	old    *string
}

type c04Search struct {
	base  string
	scope int
	f     *model.Filter
}

func (q c04Req) node() *ber.Node {
	switch {
	case q.search != nil:
		return wire.SearchOp(q.search.base, q.search.scope, 0, false, q.search.f.Node(), nil)
	case q.bind != nil:
		return wire.BindOp(q.bind[0], q.bind[1])
	}
	return q.op.Node()
}

const c04X = "cn=x,ou=a,dc=x"

func c04Reqs() []c04Req {
	o := func(name string, op dir.Op) c04Req { return c04Req{name: name, op: &op} }
	s := func(name, base string, scope int, f *model.Filter) c04Req {
		return c04Req{name: name, search: &c04Search{base, scope, f}}
	}
	b := func(name, dn, pw string) c04Req { return c04Req{name: name, bind: &[2]string{dn, pw}} }
	return []c04Req{
		o("add n (1)", addOp("cn=n,ou=a,dc=x", "cn", "n", "description", "one")),
		o("add n (2)", addOp("CN=N,ou=a,dc=x", "cn", "n", "description", "two", "sn", "s")),
		o("add child of b", addOp("cn=c,ou=b,dc=x", "cn", "c")),
		o("delete b", delOp("ou=b,dc=x")),
		o("delete x", delOp(c04X)),
		o("rename x to n", renOp(c04X, "cn=n", true)),
		o("rename y to n", renOp("cn=y,ou=a,dc=x", "cn=n", false)),
		o("rename b to d", renOp("ou=b,dc=x", "ou=d", true)),
		o("modify x description", modOp(c04X, ch(model.Replace, "description", "m1"), ch(model.Add, "sn", "s1"))),
		o("modify x sn", modOp(c04X, ch(model.Add, "sn", "s2"))),
		o("modify x swap", modOp(c04X, ch(model.Delete, "description", "v1"), ch(model.Add, "description", "v2"))),
		o("password x p1", pwOp(c04X, "p1")),
		o("password x p2", pwOp(c04X, "p2")),
		b("bind x pw", c04X, "pw"),
		b("bind x p1", c04X, "p1"),
		s("search tree", "dc=x", model.ScopeSub, fpr("objectClass")),
		s("search a", "ou=a,dc=x", model.ScopeOne, fpr("objectClass")),
		s("search x", c04X, model.ScopeBase, fpr("objectClass")),
		o("delete n", delOp("cn=n,ou=a,dc=x")),
		o("add x again", addOp(c04X, "cn", "x", "description", "again")),
		{name: "own password p3", op: &dir.Op{K: "pw", DN: c04X, PW: "p3"}, as: c04X},
		{name: "user adds u", op: ptr(addOp("cn=u,ou=a,dc=x", "cn", "u")), as: c04X},
	}
}

func c04Inits() []*initState {
	return []*initState{
		{name: "some entries", seed: popSeed()[:6]},
		{name: "many entries", seed: append(wideSeed(30), popSeed()[3:6]...)},
	}
}

var c04Once sync.Once
var c04Prep []*initState

func c04Init(c *run.Ctx) []*initState {
	c04Once.Do(func() {
		sp := &treeSpec{inits: c04Inits()}
		if err := sp.prepare(c.Scratch); err != nil {
			c.Errorf("%v", err)
			return
		}
		c04Prep = sp.inits
	})
	return c04Prep
}

// c04State is a sequential state of the reference.
type c04State struct {
	tree *model.Tree
	pw   map[string]string // by entry key
}

func keyDN(dn string) string {
	d, _ := model.ParseDN(dn)
	return d.Key()
}

// step executes a request; ok is whether its answer fits.
func (s c04State) step(q c04Req, a schedAnswer) (c04State, bool) {
	switch {
	case q.search != nil:
		if s.tree.Get(q.search.base) == nil {
			return s, len(a.Entries) == 0
		}
		var l []*model.Entry
		for _, e := range s.tree.InScope(q.search.base, q.search.scope) {
			if q.search.f.Match(e) {
				l = append(l, e)
			}
		}
		return s, a.Code == 0 && model.CanonEntries(l) == model.CanonWire(dir.HidePW(a.Entries))
	case q.bind != nil:
		p, ok := s.pw[keyDN(q.bind[0])]
		return s, (ok && p == q.bind[1]) == (a.Code == 0)
	}
	t := s.tree.Clone()
	if q.as != "" && (s.tree.Get(q.as) == nil || q.op.K != "pw") {
		return s, a.Code > 0
	}
	if !q.op.Apply(t) {
		return s, a.Code > 0
	}
	n := c04State{t, map[string]string{}}
	for k, v := range s.pw {
		n.pw[k] = v
	}
	k := keyDN(q.op.DN)
	switch q.op.K {
	case "del":
		delete(n.pw, k)
	case "ren":
		if p, ok := n.pw[k]; ok {
			delete(n.pw, k)
			d, _ := model.ParseDN(q.op.DN)
			nd, _ := model.ParseDN(q.op.NewRDN)
			n.pw[append(append(model.DN{}, nd...), d.Parent()...).Key()] = p
		}
	case "pw":
		n.pw[k] = q.op.PW
	}
	return n, a.Code == 0
}

// linear looks for a sequential execution with these answers and this final state.
func c04Linear(s c04State, qs [][]c04Req, as [][]schedAnswer, done []int, final func(c04State) bool) bool {
	left := false
	for i := range qs {
		if done[i] == len(qs[i]) {
			continue
		}
		left = true
		a := as[i][done[i]]
		ok := true
		for j := range qs {
			if j != i && done[j] < len(qs[j]) && as[j][done[j]].resp < a.inv {
				ok = false
			}
		}
		if !ok {
			continue
		}
		n, fits := s.step(qs[i][done[i]], a)
		if !fits {
			continue
		}
		done[i]++
		if c04Linear(n, qs, as, done, final) {
			return true
		}
		done[i]--
	}
	return !left && final(s)
}

var c04PWs = []string{"pw", "p1", "p2", "p3"}

// c04Exec runs one schedule. what is "" if everything is as it should be.
func c04Exec(c *run.Ctx, path string, k c04Case) (r *vsched.Run, what, outcome string, overlap bool) {
	inits := c04Init(c)
	if inits == nil {
		return nil, "", "", false
	}
	in := inits[k.Init]
	vocab := c04Reqs()
	d, err := dir.Open(path, in.content)
	if err != nil {
		return nil, "the directory does not open: " + err.Error(), "", false
	}
	defer d.Close()
	r = vsched.New(k.Devs)
	defer r.Close()
	var conns []*schedConn
	var qs [][]c04Req
	for i, l := range k.Conns {
		var nodes []*ber.Node
		var q []c04Req
		for _, x := range l {
			q = append(q, vocab[x])
			nodes = append(nodes, vocab[x].node())
		}
		qs = append(qs, q)
		bind := wire.BindOp(dir.AdminDN, dir.AdminPW)
		if as := q[0].as; as != "" {
			bind = wire.BindOp(as, "pw")
		}
		sc := newSchedConn(r, i, []*ber.Node{bind}, nodes)
		conns = append(conns, sc)
		if err := d.Srv.Connect(sc); err != nil {
			return nil, err.Error(), "", false
		}
	}
	if err := r.Start(len(conns)); err != nil {
		return nil, "the connections are not served: " + err.Error(), "", false
	}
	if r.Stuck != "" {
		return r, "requests never finish: " + r.Stuck, "", true
	}
	var as [][]schedAnswer
	out := ""
	for i, sc := range conns {
		a := sc.answers()
		if len(a) != len(qs[i]) {
			return r, fmt.Sprintf("connection %d: %d answers for %d requests", i, len(a), len(qs[i])), "", true
		}
		for j, x := range a {
			if x.Code < 0 {
				return r, fmt.Sprintf("connection %d: %q is not answered: code %d %s", i, qs[i][j].name, x.Code, x.Proto), "", true
			}
			ok := "ok"
			if x.Code != 0 {
				ok = "refused"
			}
			out += fmt.Sprintf("[%d] %s: %s", i, qs[i][j].name, ok)
			if qs[i][j].search != nil {
				out += fmt.Sprintf(" %d entries %s", len(x.Entries), keyOf(model.CanonWire(dir.HidePW(x.Entries))))
			}
			out += "; "
		}
		as = append(as, a)
	}
	for i := range as {
		for j := range as {
			if i != j && as[i][0].inv < as[j][len(as[j])-1].resp && as[j][0].inv < as[i][len(as[i])-1].resp {
				overlap = true
			}
		}
	}
	got, err := d.Content()
	if err != nil {
		return r, "after " + out + err.Error(), "", overlap
	}
	// Passwords that work in the end.
	works := map[string]string{}
	cl := d.Srv.Dial()
	var users []string
	for _, l := range qs {
		for _, q := range l {
			if q.op != nil && q.op.K == "pw" {
				users = []string{c04X, "cn=n,ou=a,dc=x"} // otherwise the content tells
			}
		}
	}
	for _, dn := range users {
		for _, pw := range c04PWs {
			if cl.Bind(dn, pw).Code == 0 {
				works[keyDN(dn)] += " " + pw
			}
		}
	}
	s := c04State{in.tree.Clone(), map[string]string{keyDN(c04X): "pw"}}
	ok := c04Linear(s, qs, as, make([]int, len(qs)), func(f c04State) bool {
		if f.tree.Canon() != got {
			return false
		}
		for _, dn := range users {
			w := ""
			if p, ok := f.pw[keyDN(dn)]; ok {
				w = " " + p
			}
			if works[keyDN(dn)] != w {
				return false
			}
		}
		return true
	})
	outcome = out + keyOf(got) + fmt.Sprint(works)
	if !ok {
		what = fmt.Sprintf("no sequential order explains: %s final passwords %v, final content %s", out, works, trim(model.Diff(got, in.tree.Canon()), 500))
	}
	return r, what, outcome, overlap
}

func c04Judge(c *run.Ctx, w int, k c04Case) string {
	schedHook()
	_, what, _, _ := c04Exec(c, filepath.Join(c.Scratch, fmt.Sprintf("c04-%d.db", w)), k)
	return what
}

// c04Scens are the scenarios with their bounds.
func c04Scens(c *run.Ctx) (l []c04Case, bounds []schedBounds) {
	v := c04Reqs()
	write := func(i int) bool { return v[i].op != nil }
	name := func(k *c04Case) {
		var p []string
		for _, l := range k.Conns {
			var q []string
			for _, x := range l {
				q = append(q, v[x].name)
			}
			p = append(p, strings.Join(q, ", "))
		}
		k.Scen = strings.Join(p, " | ")
	}
	add := func(b schedBounds, init int, conns ...[]int) {
		for _, l := range conns {
			for j, x := range l {
				// Only administrators write; the user's own connection does nothing else.
				if v[x].as != "" && len(l) > 1 {
					return
				}
				if v[x].bind != nil && j+1 < len(l) {
					return
				}
			}
		}
		k := c04Case{Init: init, Conns: conns}
		name(&k)
		l = append(l, k)
		bounds = append(bounds, b)
	}
	q := map[string]int{}
	for i := range v {
		q[v[i].name] = i
	}
	const (
		add1, add2, child, delB, delX, renX, renY, renB = "add n (1)", "add n (2)", "add child of b", "delete b", "delete x", "rename x to n", "rename y to n", "rename b to d"
		modD, modS, swap, pw1, pw2, bind0, bind1        = "modify x description", "modify x sn", "modify x swap", "password x p1", "password x p2", "bind x pw", "bind x p1"
		tree, listA, readX, delN, addX                  = "search tree", "search a", "search x", "delete n", "add x again"
	)
	pair := schedBounds{pairs: [][2]int{{1, 1}, {0, 2}}, free: 2, loops: 1}
	few := schedBounds{pairs: [][2]int{{0, 2}, {1, 1}}, free: 1, loops: 1}
	if c.Thorough {
		pair = schedBounds{pairs: [][2]int{{1, 1}, {0, 3}}, free: 3}
		few = schedBounds{pairs: [][2]int{{1, 1}, {0, 3}}, free: 2, loops: 2}
	}
	for i := range v {
		for j := i; j < len(v); j++ {
			if write(i) || write(j) {
				add(pair, 0, []int{i}, []int{j})
				if i != j && c.Thorough {
					add(few, 1, []int{i}, []int{j})
				}
			}
		}
	}
	// More requests.
	for _, s := range [][]string{
		{add1, renX, tree}, {delX, modD, pw1}, {child, delB, tree}, {modD, modS, readX}, {pw1, pw2, bind1}, {renX, renY, listA},
		{modD + "," + readX, modS + "," + readX}, {add1 + "," + delN, add2 + "," + tree}, {delB + "," + child, renB + "," + tree},
		{pw1 + "," + bind1, pw2 + "," + bind0}, {swap + "," + modS, swap + "," + renX}, {child + "," + delB, tree + "," + tree},
		{tree, add1 + "," + modD}, {tree, modD + "," + add1}, {tree, renX + "," + delN}, {tree, renB + "," + add1}, {tree, delX + "," + addX}, {tree, delB + "," + modS},
		{listA, add1 + "," + modD}, {listA, renX + "," + addX}, {listA, modD + "," + renY}, {readX, delX + "," + addX}, {readX, renX + "," + addX},
		{modD, delX + "," + addX}, {pw1, delX + "," + addX}, {pw1, renX + "," + addX}, {renX, delX + "," + addX}, {bind0, pw1 + "," + pw2}, {child, delB + "," + add1},
	} {
		var conns [][]int
		for _, l := range s {
			var r []int
			for _, n := range strings.Split(l, ",") {
				i, ok := q[n]
				if !ok {
					panic(n)
				}
				r = append(r, i)
			}
			conns = append(conns, r)
		}
		add(few, 0, conns...)
	}
	// Two preemptions at any two places for the requests that conflict most.
	if c.Thorough {
		two := schedBounds{pairs: [][2]int{{2, 2}}, loops: 1}
		for _, p := range [][2]string{{add1, add2}, {child, delB}, {renX, modD}, {renX, renY}, {modD, modS}, {swap, swap}, {pw1, pw2}, {pw1, bind1}, {tree, renX}, {delX, modD}} {
			add(two, 0, []int{q[p[0]]}, []int{q[p[1]]})
		}
	}
	return
}

func c04Explore(c *run.Ctx) {
	if c04Init(c) == nil {
		return
	}
	scens, bounds := c04Scens(c)
	var mu sync.Mutex
	seen := map[string]map[string]bool{}
	var diverged, loose, points, maxPoints int64
	perScen := map[string]int64{}
	schedExplore(c, len(scens), func(s int) schedBounds { return bounds[s] }, func(w, s int, devs []vsched.Dev) *vsched.Run {
		k := scens[s]
		k.Devs = devs
		c.Announce(w, k)
		r, what, out, overlap := c04Exec(c, filepath.Join(c.Scratch, fmt.Sprintf("c04-%d.db", w)), k)
		c.Evals.Add(1)
		c.Traces.Add(1)
		if overlap {
			c.Nontrivial.Add(1)
		}
		if what != "" {
			c.Violation(k.Scen, what, k)
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		if r != nil {
			if r.Diverged {
				diverged++
			}
			if r.Loose {
				loose++
			}
			points += int64(len(r.Points))
			maxPoints = max(maxPoints, int64(len(r.Points)))
			c.Trans.Add(int64(r.Steps))
		}
		perScen[k.Scen]++
		if seen[k.Scen] == nil {
			seen[k.Scen] = map[string]bool{}
		}
		if !seen[k.Scen][out] {
			seen[k.Scen][out] = true
			c.States.Add(1)
			if len(devs) > 0 && overlap {
				c.Sample(map[string]any{"case": k, "outcome": out})
			}
		}
		return r
	})
	several := 0
	for _, m := range seen {
		if len(m) > 1 {
			several++
		}
	}
	c.Extra("scenarios", len(scens))
	c.Extra("schedules", c.Evals.Load())
	c.Extra("scenarios_with_several_outcomes", several)
	c.Extra("decisions", points)
	c.Extra("most_decisions_in_one_schedule", maxPoints)
	c.Extra("diverged", diverged)
	c.Extra("waited_outside_of_the_scheduler", loose)
	c.Extra("instrumentation_level", vsched.Level)
	var top []string
	for k, n := range perScen {
		top = append(top, fmt.Sprintf("%7d %s", n, k))
	}
	sort.Sort(sort.Reverse(sort.StringSlice(top)))
	c.Extra("largest_scenarios", top[:min(5, len(top))])
	if diverged > 0 {
		c.Incomplete(fmt.Sprintf("%d schedules could not be followed", diverged))
	}
	if vsched.Level != "2" {
		c.Incomplete("built with instrumentation level " + vsched.Level)
	}
}
