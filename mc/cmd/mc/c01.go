package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"sync"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// histCase is a history from a named initial state.
type histCase struct {
	Init string   `json:"init"`
	Ops  []dir.Op `json:"ops"`
	Warm bool     `json:"warm,omitempty"` // without restarts
}

func (h histCase) key(what string) string {
	s := h.Init
	for _, o := range h.Ops {
		s += "; " + o.String()
	}
	return what + " after " + s
}

type initState struct {
	name    string
	seed    []dir.SeedEntry
	age     uint64
	content []byte
	tree    *model.Tree
}

// treeSpec is a state space of a database-backed directory.
type treeSpec struct {
	inits    []*initState
	ops      []dir.Op
	names    []string // names queried in every state (perState)
	perState bool
}

func (sp *treeSpec) prepare(scratch string) error {
	for _, in := range sp.inits {
		p := filepath.Join(scratch, "seed.db")
		b, err := dir.Seed(p, dir.Base, in.seed)
		if err != nil {
			return err
		}
		if in.age > 0 {
			if err := dir.Age(p, in.age); err != nil {
				return err
			}
			b = readFile(p)
		}
		in.content = b
		in.tree = dir.Tree(dir.Base, in.seed)
	}
	return nil
}

func (sp *treeSpec) find(name string) *initState {
	for _, i := range sp.inits {
		if i.name == name {
			return i
		}
	}
	return nil
}

type tnode struct {
	init *initState
	path []dir.Op
	tree *model.Tree
	file []byte
}

// judge compares one step.
func judgeStep(o dir.Op, r wire.Result, before, after *model.Tree, accept bool, d *dir.Dir) string {
	if r.Code < 0 {
		return fmt.Sprintf("%s: no proper answer (%d %s)", o, r.Code, r.Proto)
	}
	if accept && r.Code != 0 {
		return fmt.Sprintf("%s is refused with %d %s although the directory allows it", o, r.Code, r.Msg)
	}
	if !accept && r.Code == 0 {
		return fmt.Sprintf("%s is accepted although the directory does not allow it", o)
	}
	got, err := d.Content()
	if err != nil {
		return fmt.Sprintf("after %s: %v", o, err)
	}
	if want := after.Canon(); got != want {
		return fmt.Sprintf("after %s (answer %d) the directory differs: %s", o, r.Code, model.Diff(got, want))
	}
	return ""
}

// queryAll queries every name in every scope.
func queryAll(d *dir.Dir, t *model.Tree, names []string) (string, int) {
	n := 0
	for _, name := range names {
		for scope := 0; scope < 3; scope++ {
			r := d.Adm.Search(name, scope, wire.FPresent("objectClass"))
			n++
			want := model.CanonEntries(t.InScope(name, scope))
			got := model.CanonWire(dir.HidePW(r.Entries))
			if r.Code < 0 {
				return fmt.Sprintf("search base %q scope %d: no proper answer (%d %s)", name, scope, r.Code, r.Proto), n
			}
			if got != want {
				return fmt.Sprintf("search base %q scope %d differs: %s", name, scope, model.Diff(got, want)), n
			}
			if r.Code != 0 { // the connection may be closed now
				a, err := d.Admin()
				if err != nil {
					return err.Error(), n
				}
				d.Adm = a
			}
		}
	}
	return "", n
}

// bfs explores breadth first. exact selects deduplication by complete database content instead of by directory content.
func (sp *treeSpec) bfs(c *run.Ctx, inits []*initState, maxDepth int, exact bool, label string) {
	var mu sync.Mutex
	seen := map[string]bool{}
	var frontier []*tnode
	for _, in := range inits {
		frontier = append(frontier, &tnode{init: in, tree: in.tree, file: in.content})
		if !exact {
			seen[in.name+in.tree.Canon()] = true
		}
		c.States.Add(1)
	}
	depth := 0
	for ; depth < maxDepth && len(frontier) > 0; depth++ {
		var next []*tnode
		last := depth == maxDepth-1
		c.Par(len(frontier), func(w, i int) {
			n := frontier[i]
			path := filepath.Join(c.Scratch, fmt.Sprintf("w%d.db", w))
			c.Announce(w, histCase{Init: n.init.name, Ops: n.path})
			var d *dir.Dir
			reopen := func() bool {
				if d != nil {
					if err := d.Close(); err != nil {
						c.Violation("", "stopping: "+err.Error(), histCase{Init: n.init.name, Ops: n.path})
					}
				}
				var err error
				d, err = dir.Open(path, n.file)
				if err != nil {
					hc := histCase{Init: n.init.name, Ops: n.path}
					c.Violation(hc.key("database does not open"), err.Error(), hc)
					d = nil
					return false
				}
				return true
			}
			if !reopen() {
				return
			}
			defer func() {
				if d != nil {
					d.Close()
				}
			}()
			hc0 := histCase{Init: n.init.name, Ops: n.path}
			got, err := d.Content()
			if err != nil || got != n.tree.Canon() {
				c.Violation(hc0.key("restart"), fmt.Sprintf("after a restart the directory differs: %v %s", err, model.Diff(got, n.tree.Canon())), hc0)
				return
			}
			c.Traces.Add(1)
			if sp.perState {
				what, q := queryAll(d, n.tree, sp.names)
				c.Evals.Add(int64(q))
				if what != "" {
					c.Violation(hc0.key("query"), what, hc0)
					return
				}
			}
			for _, o := range sp.ops {
				hc := histCase{Init: n.init.name, Ops: append(append([]dir.Op{}, n.path...), o)}
				c.Announce(w, hc)
				t := n.tree.Clone()
				accept := o.Apply(t)
				r := o.Do(d.Adm)
				c.Trans.Add(1)
				what := judgeStep(o, r, n.tree, t, accept, d)
				if what != "" {
					c.Violation(hc.key("step"), what, hc)
					if !reopen() {
						return
					}
					continue
				}
				if !accept {
					continue
				}
				var k string
				if exact {
					k = d.Dump()
				} else {
					k = n.init.name + t.Canon()
				}
				mu.Lock()
				dup := seen[k]
				seen[k] = true
				if !dup {
					c.States.Add(1)
					if len(n.path) == 1 {
						c.Sample(fmt.Sprintf("%s: %v", n.init.name, hc.Ops))
					}
				}
				mu.Unlock()
				if !dup {
					if sp.perState && last {
						what, q := queryAll(d, t, sp.names)
						c.Evals.Add(int64(q))
						if what != "" {
							c.Violation(hc.key("query"), what, hc)
						}
					}
					if !last {
						nn := &tnode{init: n.init, path: hc.Ops, tree: t, file: d.Bytes()}
						mu.Lock()
						next = append(next, nn)
						mu.Unlock()
					}
				}
				if !reopen() {
					return
				}
			}
		})
		if c.Enough() || c.Expired() {
			break
		}
		frontier = next
	}
	c.Extra(label+"_depth_reached", depth)
	c.Extra(label+"_fixpoint", len(frontier) == 0 && depth < maxDepth)
}

// warm runs every sequence of depth operations on one running server, querying everything before and after each step.
func (sp *treeSpec) warm(c *run.Ctx, inits []*initState, depth int) {
	n := len(inits)
	for i := 0; i < depth; i++ {
		n *= len(sp.ops)
	}
	c.Extra("warm_sequences", n)
	c.Par(n, func(w, i int) {
		h := histCase{Init: inits[i%len(inits)].name, Warm: true}
		i /= len(inits)
		for j := 0; j < depth; j++ {
			h.Ops = append(h.Ops, sp.ops[i%len(sp.ops)])
			i /= len(sp.ops)
		}
		c.Announce(w, h)
		if what := sp.hist(c, h, filepath.Join(c.Scratch, fmt.Sprintf("w%d.db", w))); what != "" {
			c.Violation(h.key("running server"), what, h)
		}
		c.Traces.Add(1)
		c.Trans.Add(int64(depth))
	})
}

// replayHist re-executes a history, judging every step.
func (sp *treeSpec) replayHist(c *run.Ctx, h histCase) string {
	return sp.hist(c, h, filepath.Join(c.Scratch, "replay.db"))
}

func (sp *treeSpec) hist(c *run.Ctx, h histCase, path string) string {
	in := sp.find(h.Init)
	if in == nil {
		c.Errorf("unknown initial state %q", h.Init)
		return ""
	}
	d, err := dir.Open(path, in.content)
	if err != nil {
		return "database does not open: " + err.Error()
	}
	defer func() {
		if d != nil {
			d.Close()
		}
	}()
	t := in.tree
	if sp.perState {
		if what, _ := queryAll(d, t, sp.names); what != "" {
			return what
		}
	}
	for _, o := range h.Ops {
		t2 := t.Clone()
		acc := o.Apply(t2)
		r := o.Do(d.Adm)
		if what := judgeStep(o, r, t, t2, acc, d); what != "" {
			return what
		}
		t = t2
		if sp.perState {
			if what, _ := queryAll(d, t, sp.names); what != "" {
				return what
			}
		}
		if h.Warm {
			continue
		}
		file := d.Bytes()
		if err := d.Close(); err != nil {
			return err.Error()
		}
		if d, err = dir.Open(path, file); err != nil {
			return "database does not open: " + err.Error()
		}
		got, err := d.Content()
		if err != nil || got != t.Canon() {
			return fmt.Sprintf("after a restart the directory differs: %v %s", err, model.Diff(got, t.Canon()))
		}
	}
	return ""
}

func attrsOf(pairs ...string) []model.Attr { return dir.E("", pairs...).Attrs }

func ch(op int, name string, vals ...string) model.Change {
	return model.Change{Op: op, Name: name, Vals: vals}
}

func addOp(dn string, pairs ...string) dir.Op {
	return dir.Op{K: "add", DN: dn, Attrs: attrsOf(append([]string{"objectClass", "top"}, pairs...)...)}
}
func delOp(dn string) dir.Op                      { return dir.Op{K: "del", DN: dn} }
func modOp(dn string, chg ...model.Change) dir.Op { return dir.Op{K: "mod", DN: dn, Changes: chg} }
func renOp(dn, rdn string, delOld bool) dir.Op {
	return dir.Op{K: "ren", DN: dn, NewRDN: rdn, DelOld: delOld}
}
func pwOp(dn, pw string) dir.Op { return dir.Op{K: "pw", DN: dn, PW: pw} }

func popSeed() []dir.SeedEntry {
	return append(dir.Standard(),
		dir.E("ou=a,dc=x", "objectClass", "organizationalUnit", "ou", "a"),
		dir.E("cn=x,ou=a,dc=x", "objectClass", "person", "cn", "x", "description", "v1", "userPassword", "pw"),
		dir.E("cn=y,ou=a,dc=x", "objectClass", "person", "cn", "y", "cn", "why"),
		dir.E("ou=b,dc=x", "objectClass", "organizationalUnit", "ou", "b"),
		dir.E("cn=k\\, l+sn=m,ou=b,dc=x", "objectClass", "person", "cn", "k, l", "sn", "m"),
	)
}

func wideSeed(n int) []dir.SeedEntry {
	s := append(dir.Standard(), dir.E("ou=a,dc=x", "objectClass", "organizationalUnit", "ou", "a"))
	for i := 0; i < n; i++ {
		s = append(s, dir.E(fmt.Sprintf("cn=n%d,ou=a,dc=x", i), "objectClass", "person", "cn", fmt.Sprintf("n%d", i), "description", strings.Repeat("d", 1+(i*37)%300)))
	}
	return s
}

func deepSeed(n int) []dir.SeedEntry {
	s := dir.Standard()
	dn := dir.Base
	for i := 0; i < n; i++ {
		dn = fmt.Sprintf("ou=l%d,%s", i, dn)
		s = append(s, dir.E(dn, "objectClass", "organizationalUnit", "ou", fmt.Sprintf("l%d", i)))
	}
	return s
}

func c01Spec(thorough bool) *treeSpec {
	sp := &treeSpec{}
	sp.inits = []*initState{
		{name: "standard", seed: dir.Standard()},
		{name: "populated", seed: popSeed()},
		{name: "aged255", seed: popSeed(), age: 254},
		{name: "aged65535", seed: popSeed(), age: 65534},
		{name: "aged2^32", seed: popSeed(), age: 1<<32 - 1},
		{name: "aged2^63", seed: popSeed(), age: 1<<63 - 2},
		{name: "wide40", seed: wideSeed(40)},
		{name: "wide1500", seed: wideSeed(1500)},
		{name: "deep12", seed: deepSeed(12)},
		{name: "deep150", seed: deepSeed(150)},
	}
	sp.ops = []dir.Op{
		addOp("ou=a,dc=x", "ou", "a"),
		addOp("OU=B , DC=X", "ou", "B"),
		addOp("cn=x,ou=a,dc=x", "cn", "x", "description", "v1"),
		addOp("CN=\\78,OU=A,DC=X", "cn", "X"),
		addOp("cn=y,ou=b,dc=x", "cn", "y"),
		addOp("cn=z,cn=x,ou=a,dc=x", "cn", "z"),
		addOp("cn=k\\2c l,ou=a,dc=x", "cn", "k, l"),
		addOp("cn=o,dc=y", "cn", "o"),
		addOp("cn=o,xdc=x", "cn", "o"),
		addOp("dc=x", "dc", "x"),
		addOp("cn=x,ou=ab,dc=x", "cn", "x"),
		addOp("cn=s,ou=a , dc=\\78", "cn", "s", "description", ""),
		delOp("ou=a,dc=x"),
		delOp("ou=b,dc=x"),
		delOp("cn=x,ou=a,dc=x"),
		delOp("CN=Z, CN=X, OU=a, dc=x"),
		delOp("cn=y,ou=b,dc=x"),
		delOp("cn=k\\, l,ou=a,dc=x"),
		delOp("dc=x"),
		delOp("cn=\\53,ou=\\41,DC= x"),
		modOp("cn=s,ou=a,dc=\\58", ch(model.Add, "description", "v", "")),
		modOp("cn=x,ou=a,dc=x", ch(model.Replace, "description", "")),
		modOp("cn=x,ou=a,dc=x", ch(model.Add, "description", "v1", "v2")),
		modOp("CN=X,ou=a,dc=x", ch(model.Add, "DESCRIPTION", "V1")),
		modOp("cn=x,ou=a,dc=x", ch(model.Replace, "description", "v3")),
		modOp("cn=x,ou=a,dc=x", ch(model.Delete, "description", "V1")),
		modOp("cn=x,ou=a,dc=x", ch(model.Delete, "description")),
		modOp("cn=x,ou=a,dc=x", ch(model.Add, "sn", "s"), ch(model.Delete, "cn", "x")),
		modOp("cn=x,ou=a,dc=x", ch(model.Replace, "sn", "t"), ch(model.Replace, "cn", "q")),
		modOp("dc=x", ch(model.Replace, "description", "base")),
		modOp("ou=a,dc=x", ch(model.Add, "description", "of a")),
		renOp("cn=x,ou=a,dc=x", "cn=y", true),
		renOp("cn=x,ou=a,dc=x", "cn=w", false),
		renOp("cn=w,ou=a,dc=x", "CN=X", true),
		renOp("cn=y,ou=a,dc=x", "sn=y+cn=x", true),
		renOp("sn=y+cn=x,ou=a,dc=x", "sn=y", true),
		renOp("ou=b,dc=x", "ou=a", true),
		renOp("ou=a,dc=x", "ou=c", true),
		renOp("cn=x,ou=a,dc=x", "cn=k\\, l", true),
		renOp("dc=x", "dc=y", true),
		renOp("cn=x,ou=a,dc=x", "cn=x", true),
		renOp("cn=x,ou=a,dc=x", "CN=X", false),
		renOp("ou=b,dc=x", "OU=\\42", true),
		renOp("cn=s,ou=a,dc=\\78", "cn=t", true),
		pwOp("cn=x,ou=a,dc=x", "new"),
		pwOp("cn=nobody,dc=x", "new"),
		renOp("cn=x,ou=a,dc=x", "cn=a,cn=b", true),
		renOp("cn=x,ou=a,dc=x", "", true),
		renOp("", "cn=x", true),
		delOp(""),
		addOp("", "cn", "x"),
		modOp("", ch(model.Add, "description", "v")),
	}
	if thorough {
		sp.ops = append(sp.ops,
			addOp("cn=zz,cn=z,cn=x,ou=a,dc=x", "cn", "zz"),
			addOp(`cn=\23h \+\"\\\<\>\;\=,ou=b,dc=x`, "cn", "#h +\"\\<>;="),
			addOp("cn=\\ sp\\ ,ou=b,dc=x", "cn", " sp "),
			addOp("cn=ü,ou=b,dc=x", "cn", "ü"),
			delOp("cn=zz,cn=z,cn=x,ou=a,dc=x"),
			delOp("cn=\\20sp\\20,ou=b,dc=x"),
			delOp("cn=\\c3\\9c,ou=b,dc=x"),
			modOp("cn=\\20sp\\20,ou=b,dc=x", ch(model.Replace, "description", "x")),
			renOp("cn=z,cn=x,ou=a,dc=x", "cn=x", true),
			renOp("cn=x,ou=a,dc=x", "cn=\\ sp\\ ", true),
			renOp("cn=\\ sp\\ ,ou=a,dc=x", "cn=x", true),
			renOp("cn=y,ou=b,dc=x", "cn=Y", true),
			renOp("cn=y,ou=b,dc=x", "mail=y", false),
			renOp("mail=y,ou=b,dc=x", "cn=y", false),
		)
	}
	return sp
}

// c01Alone are the histories in which the base entry is left without entries below it: the administrator removes his
// own entry, stays connected and goes on.
func c01Alone(depth int) (l []histCase) {
	ops := []dir.Op{
		renOp("dc=x", "dc=y", true),
		renOp("dc=x", "DC=X", true),
		renOp("dc=x", "o=x", false),
		addOp("dc=x", "dc", "x"),
		addOp("dc=y", "dc", "y"),
		addOp("ou=c,dc=x", "ou", "c"),
		addOp("ou=c,dc=y", "ou", "c"),
		delOp("ou=c,dc=x"),
		renOp("ou=c,dc=x", "ou=d", true),
		modOp("dc=x", ch(model.Add, "description", "v")),
		addOp(dir.AdminDN, "cn", "admin"),
	}
	seqs := [][]dir.Op{{delOp(dir.AdminDN)}}
	for i := 0; i < depth; i++ {
		var next [][]dir.Op
		for _, s := range seqs {
			for _, o := range ops {
				next = append(next, append(append([]dir.Op{}, s...), o))
			}
		}
		seqs = next
	}
	for _, s := range seqs {
		l = append(l, histCase{Init: "standard", Warm: true, Ops: s})
	}
	return l
}

// c01Large are histories with requests that carry many attributes or values.
func c01Large() (l []histCase) {
	for _, n := range []int{20, 33, 65, 129, 257, 600, 1025} {
		const dn = "cn=big,ou=a,dc=x"
		attrs, vals := addOp(dn, "cn", "big"), addOp(dn, "cn", "big")
		var vs, some []string
		var chs []model.Change
		for i := 0; i < n; i++ {
			v := fmt.Sprintf("v%d", (i*7)%n)
			attrs.Attrs = append(attrs.Attrs, model.Attr{Name: fmt.Sprintf("a%d", i), Values: []string{v}})
			chs = append(chs, ch(model.Replace, fmt.Sprintf("a%d", i), "new"+v))
			vs = append(vs, v)
			if i%3 == 0 {
				some = append(some, v)
			}
		}
		vals.Attrs = append(vals.Attrs, model.Attr{Name: "description", Values: vs})
		for _, add := range []dir.Op{attrs, vals} {
			for _, o := range []dir.Op{
				modOp(dn, chs...),
				modOp(dn, ch(model.Add, "title", vs...)),
				modOp(dn, ch(model.Replace, "description", some...)),
				modOp(dn, ch(model.Delete, "description", some...)),
				modOp(dn, ch(model.Replace, "title", vs...), ch(model.Delete, "title", some...)),
				renOp(dn, "cn=large", true),
				renOp(dn, "title=large", false),
				pwOp(dn, "new"),
			} {
				for _, o2 := range []dir.Op{delOp(dn), renOp(dn, "cn=l", true), modOp(dn, ch(model.Delete, "cn")), modOp(dn, ch(model.Add, "sn", "last"))} {
					for _, warm := range []bool{false, true} {
						l = append(l, histCase{Init: "standard", Warm: warm, Ops: []dir.Op{addOp("ou=a,dc=x", "ou", "a"), add, o, o2}})
					}
				}
			}
		}
	}
	return l
}

func init() {
	register(&run.Check{
		ID: "C01", Level: "model_checking",
		Rule: "Breadth-first search over write requests sent by the administrator to a live server with a bbolt file; " +
			"after every request the answer and the whole directory are compared with the reference tree, and every state is reopened from its file before it is expanded; and all histories with a base entry that has no entries below it, and with requests of up to 1025 attributes or values.",
		Assume: []string{"reference tree (lib/model) is right", "directory content is observed through whole-tree searches; generated password hashes are compared by scheme only"},
		Explore: func(c *run.Ctx) {
			sp := c01Spec(c.Thorough)
			if err := sp.prepare(c.Scratch); err != nil {
				c.Errorf("%v", err)
				return
			}
			fix := []*initState{sp.find("standard")}
			aged := []*initState{sp.find("aged255"), sp.find("aged65535"), sp.find("aged2^32"), sp.find("aged2^63"), sp.find("wide40"), sp.find("deep12")}
			big := []*initState{sp.find("wide1500"), sp.find("deep150")}
			pop := []*initState{sp.find("populated")}
			if c.Thorough {
				sp.bfs(c, append(fix, pop...), 5, true, "exact")
				sp.bfs(c, aged, 3, true, "aged")
				sp.bfs(c, big, 2, true, "wide")
				sp.bfs(c, append(fix, pop...), 100, false, "content")
			} else {
				sp.bfs(c, append(fix, pop...), 3, true, "exact")
				sp.bfs(c, aged, 1, true, "aged")
				sp.bfs(c, big, 1, true, "wide")
				sp.bfs(c, fix, 6, false, "content")
			}
			depth := 3
			if c.Thorough {
				depth = 4
			}
			alone := c01Alone(depth)
			c.Extra("base_alone_sequences", len(alone))
			alone = append(alone, c01Large()...)
			c.Par(len(alone), func(w, i int) {
				c.Announce(w, alone[i])
				if what := sp.hist(c, alone[i], filepath.Join(c.Scratch, fmt.Sprintf("w%d.db", w))); what != "" {
					c.Violation(alone[i].key("history"), what, alone[i])
				}
				c.Traces.Add(1)
				c.Trans.Add(int64(depth))
			})
		},
		Replay: func(c *run.Ctx, k json.RawMessage) string {
			var h histCase
			if err := json.Unmarshal(k, &h); err != nil {
				c.Errorf("%v", err)
				return ""
			}
			sp := c01Spec(true)
			if err := sp.prepare(c.Scratch); err != nil {
				c.Errorf("%v", err)
				return ""
			}
			return sp.replayHist(c, h)
		},
	})
}
