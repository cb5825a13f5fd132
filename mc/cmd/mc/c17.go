package main

import (
	"fmt"
	"io"
	"path/filepath"
	"sort"
	"strings"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// c17Kind is a kind of request.
type c17Kind struct {
	name string
	op   func() *ber.Node
	ctrl []wire.Control
	// do says what has to happen: whether it succeeds and, for searches, what is returned.
	do func(s *c17State) (ok bool, entries string)
	// ends: the server may end the connection after (or instead of, if there is none) the answer.
	ends bool
	// must: the server has to end the connection.
	must bool
}

type c17State struct {
	bolt bool
	tree *model.Tree
	who  string // "" anonymous, "user", "admin"
	pw   bool   // the user's password was changed
}

const (
	c17U  = "cn=a,ou=p,dc=x"
	c17PW = "pwa"
)

func c17Seed() []dir.SeedEntry {
	l := append(dir.Standard(),
		dir.E("ou=p,dc=x", "objectClass", "organizationalUnit", "ou", "p"),
		dir.E(c17U, "objectClass", "person", "cn", "a", "sn", "A", "userPassword", c17PW),
		dir.E("cn=b,ou=p,dc=x", "objectClass", "person", "cn", "b", "sn", "B"),
	)
	return l
}

func c17Write(o dir.Op) c17Kind {
	return c17Kind{
		name: o.String(),
		op: func() *ber.Node {
			switch o.K {
			case "add":
				return wire.AddOp(o.DN, model.ToWire(o.Attrs))
			case "del":
				return wire.DelOp(o.DN)
			case "mod":
				return wire.ModifyOp(o.DN, model.ToChanges(o.Changes))
			}
			return wire.ModDNOp(o.DN, o.NewRDN, o.DelOld, nil)
		},
		do: func(s *c17State) (bool, string) {
			return s.bolt && s.who == "admin" && o.Apply(s.tree), ""
		},
	}
}

func c17NoPW(es []*model.Entry) string {
	var l []*model.Entry
	for _, e := range es {
		n := e.Clone()
		n.Attrs = nil
		for _, a := range e.Attrs {
			if !strings.EqualFold(a.Name, "userPassword") {
				n.Attrs = append(n.Attrs, a)
			}
		}
		l = append(l, n)
	}
	return model.CanonEntries(l)
}

func c17Strip(es []wire.Entry) (l []wire.Entry) {
	for _, e := range es {
		n := wire.Entry{DN: e.DN}
		for _, a := range e.Attrs {
			if !strings.EqualFold(a.Name, "userPassword") {
				n.Attrs = append(n.Attrs, a)
			}
		}
		l = append(l, n)
	}
	return l
}

func c17Search(name, base string, scope int, f *model.Filter, limit int, ctrl ...wire.Control) c17Kind {
	return c17Kind{
		name: name, ctrl: ctrl,
		op: func() *ber.Node { return wire.SearchOp(base, scope, limit, false, f.Node(), nil) },
		do: func(s *c17State) (bool, string) {
			if s.who == "" {
				return false, ""
			}
			var l []*model.Entry
			for _, e := range s.tree.InScope(base, scope) {
				if f.Match(e) {
					l = append(l, e)
				}
			}
			if limit > 0 && len(l) > limit {
				return false, "any"
			}
			return true, c17NoPW(l)
		},
		ends: true,
	}
}

func c17Bind(name, dn, pw, who string) c17Kind {
	return c17Kind{name: name, op: func() *ber.Node { return wire.BindOp(dn, pw) },
		do: func(s *c17State) (bool, string) {
			s.who = ""
			if who == "user" && s.pw {
				return false, ""
			}
			s.who = who
			return who != "", ""
		}}
}

func c17Refused(name string, op func() *ber.Node, ends bool) c17Kind {
	return c17Kind{name: name, op: op, do: func(*c17State) (bool, string) { return false, "" }, ends: ends}
}

func c17Kinds() []c17Kind {
	sup := "ou=p,dc=x"
	user, nw := c17U, "new"
	long := strings.Repeat("x", 70000)
	eq := func(a, v string) *model.Filter { return &model.Filter{Kind: model.FEq, Attr: a, Value: v} }
	return []c17Kind{
		c17Bind("bind admin", dir.AdminDN, dir.AdminPW, "admin"),
		c17Bind("bind user", c17U, c17PW, "user"),
		c17Bind("bind wrong password", c17U, "wrong", ""),
		c17Bind("bind entry without password", "cn=b,ou=p,dc=x", "x", ""),
		c17Bind("bind anonymously", "", "", ""),
		c17Bind("bind malformed name", "cn", "x", ""),
		{name: "bind sasl", op: func() *ber.Node { return wire.SASLBindOp("", "PLAIN", "x") },
			do: func(s *c17State) (bool, string) { s.who = ""; return false, "" }},
		c17Search("search all", dir.Base, model.ScopeSub, dir.All(), 0),
		c17Search("search one", c17U, model.ScopeBase, eq("sn", "a"), 0),
		c17Search("search nothing", dir.Base, model.ScopeSub, eq("sn", "zz"), 0),
		c17Search("search limit", dir.Base, model.ScopeSub, dir.All(), 1),
		c17Search("search unknown control", dir.Base, model.ScopeSub, eq("sn", "b"), 0, wire.Control{OID: "1.2.3.4"}),
		c17Refused("search elsewhere", func() *ber.Node {
			return wire.SearchOp("dc=elsewhere", model.ScopeSub, 0, false, wire.FPresent("cn"), nil)
		}, true),
		c17Refused("search bad filter", func() *ber.Node {
			return wire.SearchOp(dir.Base, model.ScopeSub, 0, false, ber.Cons(0xbe, ber.Str("cn"), ber.Str("x")), nil)
		}, true),
		c17Write(dir.Op{K: "add", DN: "cn=n,ou=p,dc=x", Attrs: []model.Attr{{Name: "objectClass", Values: []string{"person"}}, {Name: "cn", Values: []string{"n"}}, {Name: "description", Values: []string{long}}}}),
		c17Write(dir.Op{K: "add", DN: "cn=n,ou=none,dc=x", Attrs: []model.Attr{{Name: "objectClass", Values: []string{"person"}}, {Name: "cn", Values: []string{"n"}}}}),
		c17Write(dir.Op{K: "del", DN: "cn=b,ou=p,dc=x"}),
		c17Write(dir.Op{K: "del", DN: "ou=p,dc=x"}),
		c17Write(dir.Op{K: "mod", DN: "cn=b,ou=p,dc=x", Changes: []model.Change{ch(model.Replace, "sn", "A")}}),
		c17Write(dir.Op{K: "ren", DN: "cn=b,ou=p,dc=x", NewRDN: "cn=n", DelOld: true}),
		c17Refused("move", func() *ber.Node { return wire.ModDNOp("cn=b,ou=p,dc=x", "cn=b", true, &sup) }, false),
		{name: "password", op: func() *ber.Node { return wire.PwModOp(&user, nil, &nw, false) },
			do: func(s *c17State) (bool, string) {
				if s.bolt && s.who != "" {
					s.pw = true
					return true, ""
				}
				return false, ""
			}},
		c17Refused("unknown extended", func() *ber.Node { return wire.ExtOp("1.2.3", nil) }, false),
		c17Refused("starttls", func() *ber.Node { return wire.ExtOp("1.3.6.1.4.1.1466.20037", nil) }, false),
		c17Refused("compare", func() *ber.Node { return wire.CompareOp(c17U, "sn", "A") }, true),
		{name: "abandon", op: func() *ber.Node { return wire.AbandonOp(1) }, ends: true},
		{name: "unknown", op: func() *ber.Node { return ber.Cons(0x7e, ber.Str("x")) }, ends: true},
		{name: "unbind", op: wire.UnbindOp, ends: true, must: true},
	}
}

var c17IDs = [][3]int64{{1, 2, 3}, {127, 128, 129}, {0x7fffffff, 1, 0x7fffffff}, {7, 7, 7}, {255, 256, 65536}, {0x800000, 0x7fff, 0x8000}}

// Ways to deliver the requests: one by one, all at once, or in pieces of n bytes.
var c17Modes = []int{0, -1, 1, 3, 64}

type c17Case struct {
	Bolt  bool   `json:"bolt"`
	Start string `json:"start"`
	Seq   []int  `json:"seq"`
	IDs   int    `json:"ids"`
	Mode  int    `json:"mode"`
	Ctl   int    `json:"ctl,omitempty"` // controls of all requests
}

func (k c17Case) String() string {
	all := c17Kinds()
	var l []string
	for n, i := range k.Seq {
		if n == 3 {
			l = append(l, fmt.Sprintf("and so on, %d requests", len(k.Seq)))
			break
		}
		l = append(l, trim(all[i].name, 60))
	}
	b := "ldif"
	if k.Bolt {
		b = "boltdb"
	}
	return fmt.Sprintf("%s, %s session, ids %v, controls %d, delivery %d: %s", b, k.Start, c17IDs[k.IDs], k.Ctl, c17Modes[k.Mode], strings.Join(l, "; "))
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type c17Worker struct {
	kinds []c17Kind
	path  string
	seed  []byte
	tree  *model.Tree
	d     *dir.Dir
	dirty bool
	ldif  *wire.Srv
}

func c17Open(c *run.Ctx, w int) (*c17Worker, error) {
	x := &c17Worker{kinds: c17Kinds(), path: filepath.Join(c.Scratch, fmt.Sprintf("c17-%d.db", w)), dirty: true}
	var err error
	if x.seed, err = dir.Seed(x.path, dir.Base, c17Seed()); err != nil {
		return nil, err
	}
	x.tree = dir.Tree(dir.Base, c17Seed())
	x.ldif, err = wire.Start(ldifConfig(filepath.Join(c.Scratch, fmt.Sprintf("c17-%d", w)), ldifText(c17Seed()), ""))
	return x, err
}

func (x *c17Worker) judge(c *run.Ctx, k c17Case) string {
	s := &c17State{bolt: k.Bolt, tree: x.tree.Clone()}
	srv := x.ldif
	if k.Bolt {
		if x.dirty {
			if x.d != nil {
				x.d.Close()
			}
			var err error
			if x.d, err = dir.Open(x.path, x.seed); err != nil {
				return "start: " + err.Error()
			}
			x.dirty = false
		}
		srv = x.d.Srv
	}
	max := 0
	if c17Modes[k.Mode] > 0 {
		max = c17Modes[k.Mode]
	}
	cl := srv.DialHooks(wire.Loopback, nil, max)
	defer cl.Close()
	switch k.Start {
	case "user":
		if r := cl.Bind(c17U, c17PW); r.Code != 0 {
			return fmt.Sprintf("bind of the user: %d %s", r.Code, bad(r))
		}
		s.who = "user"
	case "admin":
		if r := cl.Bind(dir.AdminDN, dir.AdminPW); r.Code != 0 {
			return fmt.Sprintf("bind of the administrator: %d %s", r.Code, bad(r))
		}
		s.who = "admin"
	}
	var all []byte
	var msgs [][]byte
	for i, q := range k.Seq {
		kd := x.kinds[q]
		m := wire.Msg(c17IDs[k.IDs][i%3], kd.op(), append(kd.ctrl[:len(kd.ctrl):len(kd.ctrl)], someControls[k.Ctl]...)...).Bytes()
		msgs = append(msgs, m)
		all = append(all, m...)
	}
	oneByOne := c17Modes[k.Mode] == 0
	if !oneByOne {
		cl.Send(all)
		cl.CloseWrite()
	}
	ended, mustEnd := false, false
	mayEnd := false // an earlier request allows the server to end the connection
	outcome := ""
	for i, q := range k.Seq {
		kd := x.kinds[q]
		id := c17IDs[k.IDs][i%3]
		at := fmt.Sprintf("request %d (%s): ", i+1, trim(kd.name, 60))
		if oneByOne {
			if cl.Send(msgs[i]) != nil {
				ended = true
				break
			}
		}
		if kd.do == nil {
			outcome += "-"
			mayEnd = mayEnd || kd.ends
			if kd.must {
				ended, mustEnd = true, true
				break
			}
			continue
		}
		before := s.who
		snap := s.tree.Clone()
		ok, entries := kd.do(s)
		var got []wire.Entry
		r := wire.Result{}
		for {
			n, err := cl.Recv()
			if err == io.EOF {
				ended = mayEnd
				if !ended {
					return at + "connection closed instead of an answer"
				}
				s.tree, s.who = snap, before
				break
			}
			if err != nil {
				return at + err.Error()
			}
			mid, mop, _, err := wire.ParseMsg(n)
			if err != nil {
				return at + err.Error()
			}
			if mid == 0 && mop.Tag == wire.TExtResp && id != 0 {
				continue // notice of disconnection
			}
			if mid != id {
				return fmt.Sprintf("%sanswer has id %d instead of %d", at, mid, id)
			}
			if mop.Tag == wire.TEntry && kd.op().Tag == wire.TSearch {
				e, err := wire.ParseEntry(mop)
				if err != nil {
					return at + err.Error()
				}
				got = append(got, e)
				continue
			}
			if want := wire.RespTag(kd.op().Tag); mop.Tag != want {
				return fmt.Sprintf("%sanswer of type %#x instead of %#x", at, mop.Tag, want)
			}
			if err := wire.ParseResult(mop, &r); err != nil {
				return at + err.Error()
			}
			break
		}
		if ended {
			break
		}
		if strings.HasPrefix(kd.name, "search elsewhere") {
			ok = r.Code == 0 // the code is not judged, but nothing may be returned
		}
		if ok != (r.Code == 0) {
			return fmt.Sprintf("%sanswered with code %d, success expected: %v", at, r.Code, ok)
		}
		if entries != "any" {
			if g := model.CanonWire(c17Strip(got)); g != entries {
				return at + "wrong entries: " + model.Diff(g, entries)
			}
		}
		mayEnd = mayEnd || kd.ends && r.Code != 0
		if ok {
			outcome += "s"
		} else {
			outcome += "f"
		}
	}
	if !ended || mustEnd || oneByOne {
		if oneByOne && !mustEnd {
			cl.CloseWrite()
		}
		for {
			n, err := cl.Recv()
			if err == io.EOF {
				break
			}
			if err != nil {
				return "at the end: " + err.Error()
			}
			if id, op, _, err := wire.ParseMsg(n); err == nil && id == 0 && op.Tag == wire.TExtResp {
				continue
			}
			return fmt.Sprintf("an answer too many: % x", n.Bytes())
		}
	}
	if ended {
		outcome += "|"
	}
	if s.bolt {
		x.dirty = strings.Contains(outcome, "s")
		got := x.d.Adm.Search(dir.Base, model.ScopeSub, wire.FPresent("objectClass"))
		if got.Code != 0 {
			return fmt.Sprintf("content: %d %s", got.Code, bad(got))
		}
		var l []*model.Entry
		for _, e := range s.tree.E {
			l = append(l, e)
		}
		if g, w := model.CanonWire(c17Strip(got.Entries)), c17NoPW(l); g != w {
			return fmt.Sprintf("answers %s do not match the content: %s", outcome, model.Diff(g, w))
		}
	}
	if len(outcome) > 3 {
		outcome = fmt.Sprintf("long run, closed early: %v", ended)
	}
	c.Outcome(outcome)
	if len(outcome) > 1 {
		c.Nontrivial.Add(1)
	}
	return ""
}

func c17Cases(thorough bool) []c17Case {
	n := len(c17Kinds())
	var l []c17Case
	var seqs [][]int
	for i := 0; i < n; i++ {
		seqs = append(seqs, []int{i})
		for j := 0; j < n; j++ {
			seqs = append(seqs, []int{i, j})
			for k := 0; k < n; k++ {
				seqs = append(seqs, []int{i, j, k})
			}
		}
	}
	sort.SliceStable(seqs, func(a, b int) bool { return len(seqs[a]) < len(seqs[b]) })
	for _, bolt := range []bool{true, false} {
		starts := []string{"anonymous", "user", "admin"}
		if !bolt {
			starts = starts[:2]
		}
		for _, st := range starts {
			for _, s := range seqs {
				for m := range c17Modes {
					for ids := range c17IDs {
						if len(s) == 3 && !thorough && (m != 1 || ids != (s[0]+s[1]+s[2])%len(c17IDs) || st == "anonymous") {
							continue
						}
						if len(s) == 3 && thorough && ids != (s[0]+s[1]*7+s[2]*3+m)%len(c17IDs) {
							continue
						}
						if len(s) == 2 && !thorough && ids != (s[0]+s[1]+m)%len(c17IDs) {
							continue
						}
						l = append(l, c17Case{bolt, st, s, ids, m, 0})
						if len(s) < 3 && (m == 0 || m == 1) && (len(s) == 1 || ids == (s[0]+s[1]+m)%len(c17IDs)) {
							for ctl := 1; ctl < len(someControls); ctl++ {
								l = append(l, c17Case{bolt, st, s, ids, m, ctl})
							}
						}
					}
				}
			}
			// Long runs: every kind and every pair of kinds again and again on one connection.
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					if i != j && !thorough && (i+j)%5 != 0 {
						continue
					}
					var s []int
					for len(s) < 300 {
						s = append(s, i, j)
					}
					for _, m := range []int{0, 1} {
						l = append(l, c17Case{bolt, st, s, (i + j + m) % len(c17IDs), m, 0})
					}
				}
			}
		}
	}
	return l
}

func init() {
	register(&run.Check{
		ID: "C17", Level: "exploration",
		Rule:   "All sequences of up to three requests over the kinds, in every session state and on both backends, with every delivery (one by one, all at once, in pieces of 1, 3 and 64 bytes); sequences of up to two with each of several sets of controls that are not critical; 300 requests of each kind and of pairs of kinds on one connection; message ids rotate through the id patterns for longer sequences. Quick: triples only delivered at once and in bound sessions. The stream of answers is decoded and compared with the reference, then the content. Non-trivial are runs with more than one answered request.",
		Assume: []string{"a refused search, a comparison, an abandon and an unknown operation may end the connection, in which case later requests are neither answered nor executed", "search limits and bases outside the data: only that there is one answer (C11 judges the rest)"},
		Explore: func(c *run.Ctx) {
			cases := c17Cases(c.Thorough)
			ws := make([]*c17Worker, c.Workers)
			c.Par(len(cases), func(w, i int) {
				if c.Expired() || c.Enough() {
					return
				}
				k := cases[i]
				c.Announce(w, k)
				if ws[w] == nil {
					var err error
					if ws[w], err = c17Open(c, w); err != nil {
						c.Errorf("%v", err)
						return
					}
				}
				c.Evals.Add(1)
				if what := ws[w].judge(c, k); what != "" {
					ws[w].dirty = true
					c.Violation(keyOf(k), k.String()+": "+what, k)
				}
				if i%5000 == 0 {
					c.Sample(k.String())
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c17Case) string {
			x, err := c17Open(c, w)
			if err != nil {
				c.Errorf("%v", err)
				return ""
			}
			return x.judge(c, k)
		}),
	})
}
