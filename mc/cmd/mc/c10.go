package main

import (
	"fmt"
	"path/filepath"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// ufilter is a filter with parts of unsupported kinds.
type ufilter struct {
	Kind string        `json:"k"` // leaf, and, or, not, ge, le, approx, ext
	Leaf *model.Filter `json:"l,omitempty"`
	Subs []*ufilter    `json:"s,omitempty"`
}

func (u *ufilter) node() *ber.Node {
	var subs []*ber.Node
	for _, s := range u.Subs {
		subs = append(subs, s.node())
	}
	switch u.Kind {
	case "leaf":
		return u.Leaf.Node()
	case "and":
		return wire.FAnd(subs...)
	case "or":
		return wire.FOr(subs...)
	case "not":
		return wire.FNot(subs[0])
	case "ge":
		return ber.Cons(0xa5, ber.Str("cn"), ber.Str("a"))
	case "le":
		return ber.Cons(0xa6, ber.Str("cn"), ber.Str("a"))
	case "approx":
		return ber.Cons(0xa8, ber.Str("cn"), ber.Str("a"))
	case "ext":
		return ber.Cons(0xa9, ber.StrT(0x81, "2.5.13.2"), ber.StrT(0x82, "cn"), ber.StrT(0x83, "a"))
	case "extdn":
		return ber.Cons(0xa9, ber.StrT(0x82, "cn"), ber.StrT(0x83, "a"), ber.Prim(0x84, []byte{0xff}))
	}
	panic(u.Kind)
}

// eval gives 1, 0 or -1 (not decidable).
func (u *ufilter) eval(e *model.Entry) int {
	switch u.Kind {
	case "leaf":
		if u.Leaf.Match(e) {
			return 1
		}
		return 0
	case "and", "or":
		neutral := 1
		if u.Kind == "or" {
			neutral = 0
		}
		r := neutral
		for _, s := range u.Subs {
			switch s.eval(e) {
			case 1 - neutral:
				return 1 - neutral
			case -1:
				r = -1
			}
		}
		return r
	case "not":
		v := u.Subs[0].eval(e)
		if v < 0 {
			return v
		}
		return 1 - v
	}
	return -1
}

func (u *ufilter) String() string {
	if u.Kind == "leaf" {
		return u.Leaf.String()
	}
	s := "(" + u.Kind
	for _, x := range u.Subs {
		s += x.String()
	}
	return s + ")"
}

func c10Unsupported() []*ufilter {
	lf := func(f *model.Filter) *ufilter { return &ufilter{Kind: "leaf", Leaf: f} }
	known := []*ufilter{lf(fpr("objectClass")), lf(fpr("missing")), lf(feq("cn", "a")), lf(fsub("cn", "a", nil, "")), lf(feq("description", "none"))}
	var l []*ufilter
	for _, k := range []string{"ge", "le", "approx", "ext", "extdn"} {
		u := &ufilter{Kind: k}
		not := func(x *ufilter) *ufilter { return &ufilter{Kind: "not", Subs: []*ufilter{x}} }
		op := func(k string, x ...*ufilter) *ufilter { return &ufilter{Kind: k, Subs: x} }
		l = append(l, u, not(u), op("and", u), op("or", u), not(op("and", u)), op("or", u, u))
		for _, x := range known {
			for _, o := range []string{"and", "or"} {
				l = append(l, op(o, x, u), op(o, u, x), op(o, not(u), x), op(o, x, not(u)), not(op(o, x, u)))
				for _, y := range known {
					for _, o2 := range []string{"and", "or"} {
						l = append(l, op(o, x, op(o2, u, y)), op(o, op(o2, y, u), x), op(o, x, op(o2, not(u), y)))
					}
				}
			}
		}
	}
	return l
}

type c10Case struct {
	searchCase
	U    *ufilter `json:"u,omitempty"`
	Wide bool     `json:"wide,omitempty"` // in a directory with many entries
	// How aliases (there are none) are treated and the time limit.
	Deref int `json:"deref,omitempty"`
	Time  int `json:"time,omitempty"`
}

func (k c10Case) String() string {
	if k.U != nil {
		return fmt.Sprintf("search base %q scope %d filter %s", k.Base, k.Scope, k.U)
	}
	return k.searchCase.String()
}

func c10Judge(c *run.Ctx, s *searcher, kc keyCache, es []*model.Entry, known map[string]bool, k c10Case) string {
	var in []*model.Entry
	if bd, err := model.ParseDN(k.Base); err == nil && known[bd.Key()] {
		in = scopeOf(es, k.Base, k.Scope)
	}
	if k.U != nil {
		r, err := s.do(wire.SearchOp(k.Base, k.Scope, 0, false, k.U.node(), nil))
		if err != nil {
			return err.Error()
		}
		if r.Code < 0 {
			return bad(r)
		}
		must, may := []*model.Entry{}, map[string]bool{}
		undecided := false
		for _, e := range in {
			switch k.U.eval(e) {
			case 1:
				must = append(must, e)
				may[e.DN.Key()] = true
			case -1:
				undecided = true
				may[e.DN.Key()] = true
			}
		}
		if r.Code == 0 {
			if undecided {
				return fmt.Sprintf("a filter of an unsupported kind that decides the result is answered with success and %d entries", len(r.Entries))
			}
			return sameNames(kc, r.Entries, must)
		}
		for _, e := range r.Entries {
			if !may[kc.of(e.DN)] {
				return "returned non-matching entry " + e.DN
			}
		}
		return ""
	}
	r, err := s.do(wire.Tune(wire.SearchOp(k.Base, k.Scope, 0, false, k.Filter.Node(), nil), k.Deref, k.Time))
	if err != nil {
		return err.Error()
	}
	if r.Code < 0 {
		return bad(r)
	}
	var want []*model.Entry
	for _, e := range in {
		if k.Filter.Match(e) {
			want = append(want, e)
		}
	}
	if r.Code != 0 {
		if len(in) == 0 && len(r.Entries) == 0 {
			return "" // no such base
		}
		return fmt.Sprintf("answered with %d", r.Code)
	}
	if len(want) > 0 {
		c.Nontrivial.Add(1)
	}
	return sameNames(kc, r.Entries, want)
}

// c10Tuned is the same search with every treatment of aliases and time limit.
func c10Tuned(k c10Case) (l []c10Case) {
	for deref := 0; deref < 4; deref++ {
		for _, t := range someTimes {
			if k.Deref, k.Time = deref, t; deref+t > 0 {
				l = append(l, k)
			}
		}
	}
	return l
}

var c10Bases = []string{"dc=x", "ou=a,dc=x", "ou=b,dc=x", "cn=b,dc=x", "cn=ab,dc=x", "cn=a,ou=a,dc=x", "DC=X", "OU=A,dc=X", "cn=\\62 , dc=x", "cn=x,cn=b,dc=x", "cn=a\\2cb,dc=x", "cn=a\\,b,dc=x", "cn=missing,dc=x", "cn=x,dc=x", "dc=y", "xou=a,dc=x", "ou=aa,dc=x", searchDeep(1), searchDeep(24), searchDeep(47), searchDeep(48)}

func init() {
	setup := func(c *run.Ctx, wide bool) (*dir.Dir, []*model.Entry, map[string]bool, error) {
		seed := searchSeed(true)
		if wide {
			seed = wideSeed(1500)
		}
		p := filepath.Join(c.Scratch, fmt.Sprintf("s%v.db", wide))
		b, err := dir.Seed(p, dir.Base, seed)
		if err != nil {
			return nil, nil, nil, err
		}
		d, err := dir.Open(p, b)
		es := modelEntries(seed)
		known := map[string]bool{}
		for _, e := range es {
			known[e.DN.Key()] = true
		}
		return d, es, known, err
	}
	register(&run.Check{
		ID: "C10", Level: "exploration",
		Rule:   "Every filter of the vocabulary (conditions with up to three substring pieces and special characters; nested and/or/not) on every search base and scope (quick: every filter on the whole tree, every fifth on each other base and scope) of a fixed directory, filters that match many entries in one of fifteen hundred, a part of these with every treatment of aliases and several time limits, and every combination with unsupported filter kinds, compared with a direct evaluation. Non-trivial are searches that match something.",
		Assume: []string{"letter case is compared on ASCII and on letters with one lower-case form", "for a base that does not exist only the absence of entries is judged", "entries sent before an error answer must not contradict the filter"},
		Explore: func(c *run.Ctx) {
			var cases []c10Case
			for _, k := range searchCases(c, c10Bases) {
				cases = append(cases, c10Case{searchCase: k})
			}
			for i, k := range cases {
				if i%61 == 0 {
					cases = append(cases, c10Tuned(k)...)
				}
			}
			for i, u := range c10Unsupported() {
				for bi, b := range c10Bases {
					for sc := 0; sc < 3; sc++ {
						if c.Thorough || bi == 0 && sc == 2 || i%17 == bi {
							cases = append(cases, c10Case{searchCase: searchCase{b, sc, nil}, U: u})
						}
					}
				}
			}
			explore := func(wide bool, cases []c10Case) {
				d, es, known, err := setup(c, wide)
				if err != nil {
					c.Errorf("%v", err)
					return
				}
				defer d.Close()
				ss, kcs := make([]*searcher, c.Workers), make([]keyCache, c.Workers)
				c.Par(len(cases), func(w, i int) {
					if ss[w] == nil {
						ss[w], kcs[w] = &searcher{s: d.Srv, dn: dir.AdminDN, pw: dir.AdminPW}, keyCache{}
					}
					k := cases[i]
					c.Announce(w, k)
					c.Evals.Add(1)
					if i%7919 == 5 {
						c.Sample(k.String())
					}
					if what := c10Judge(c, ss[w], kcs[w], es, known, k); what != "" {
						c.Violation(k.String()+": "+what, k.String()+": "+what, k)
					}
				})
			}
			var many []c10Case
			for _, b := range []string{"dc=x", "ou=a,dc=x", "cn=n1499,ou=a,dc=x", "cn=n0,ou=a,dc=x"} {
				for sc := 0; sc < 3; sc++ {
					for _, f := range []*model.Filter{fpr("objectClass"), fpr("cn"), feq("objectClass", "person"), feq("cn", "n1499"), feq("cn", "n0"), fsub("cn", "n", nil, ""), fsub("cn", "", nil, "9"), fsub("description", "d", nil, "d"), fnot(feq("cn", "n7")), foor(feq("cn", "n3"), feq("cn", "N1300")), fand(fpr("description"), fsub("cn", "", []string{"1"}, ""))} {
						k := c10Case{searchCase: searchCase{b, sc, f}, Wide: true}
						many = append(append(many, k), c10Tuned(k)...)
					}
				}
			}
			explore(false, cases)
			explore(true, many)
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c10Case) string {
			d, es, known, err := setup(c, k.Wide)
			if err != nil {
				return err.Error()
			}
			defer d.Close()
			return c10Judge(c, &searcher{s: d.Srv, dn: dir.AdminDN, pw: dir.AdminPW}, keyCache{}, es, known, k)
		}),
	})
}
