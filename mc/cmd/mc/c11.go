package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

func c11Seed() []dir.SeedEntry {
	many := dir.E("cn=many,ou=a,dc=x", "objectClass", "person", "cn", "many")
	var vs []string
	for i := 0; i < 60; i++ {
		vs = append(vs, fmt.Sprintf("v%d", (i*37)%60))
	}
	many.Attrs = append(many.Attrs, model.Attr{Name: "description", Values: vs}, model.Attr{Name: "sn", Values: []string{strings.Repeat("long \xc3\xa4 ", 5000), "\x00\x01\xff", "b", "a", "B b"}})
	attrs := dir.E("cn=attrs,ou=a,dc=x", "objectClass", "person", "cn", "attrs")
	for i := 0; i < 70; i++ {
		attrs.Attrs = append(attrs.Attrs, model.Attr{Name: fmt.Sprintf("a%02d", (i*37)%70), Values: []string{fmt.Sprintf("w%d", i)}})
	}
	attrs.Attrs = append(attrs.Attrs, model.Attr{Name: "sn", Values: []string{"last"}}, model.Attr{Name: "description", Values: []string{"at", "the", "end"}})
	return append(searchSeed(false), many, attrs, dir.E("cn=empty,ou=a,dc=x", "objectClass", "person", "cn", "empty", "description", "", "sn", "", "sn", "x", "mail", "x", "mail", ""))
}

var c11Names = []string{"cn", "CN", "sn", "*", "1.1", "+", "missing", "objectClass", "description", "userPassword", "DESCRIPTION"}

var c11Searches = []searchCase{
	{"dc=x", 2, fpr("objectClass")},
	{"ou=a,dc=x", 1, fpr("objectClass")},
	{"dc=x", 2, feq("objectClass", "person")},
	{"cn=many,ou=a,dc=x", 0, fpr("cn")},
	{"dc=x", 2, feq("cn", "none")},
	{"dc=x", 2, fsub("cn", "a", nil, "")},
	{"dc=x", 2, foor(feq("cn", "a"), feq("uid", "u1"), fpr("mail"))},
	{"dc=x", 2, fnot(fpr("mail"))},
}

type c11Case struct {
	Backend string   `json:"backend"`
	Search  int      `json:"search"`
	Attrs   []string `json:"attrs"`
	Limit   int      `json:"limit"`
}

func (k c11Case) String() string {
	return fmt.Sprintf("%s: %s attributes %q size limit %d", k.Backend, c11Searches[k.Search], k.Attrs, k.Limit)
}

// c11Want selects the attributes.
func c11Want(e *model.Entry, attrs []string) string {
	all := len(attrs) == 0
	want := map[string]bool{}
	for _, a := range attrs {
		if a == "*" {
			all = true
		}
		want[strings.ToLower(a)] = true
	}
	var r []model.Attr
	for _, a := range e.Attrs {
		if all || want[strings.ToLower(a.Name)] {
			r = append(r, a)
		}
	}
	return model.Canon(e.DN.Key(), r)
}

type c11Srv struct {
	s    *wire.Srv
	es   []*model.Entry
	full string // rendering of everything
}

func c11Start(c *run.Ctx, backend, tag string) (*c11Srv, error) {
	seed := c11Seed()
	p := filepath.Join(c.Scratch, "c11-"+tag)
	r := &c11Srv{}
	var err error
	if backend == "boltdb" {
		if _, err = dir.Seed(p+".db", dir.Base, seed); err != nil {
			return nil, err
		}
		r.s, err = wire.Start(dir.Config(p + ".db"))
	} else {
		r.s, err = wire.Start(ldifConfig(p, searchLDIF(seed), ""))
	}
	if err != nil {
		return nil, err
	}
	for _, e := range modelEntries(seed) {
		n := &model.Entry{DN: e.DN}
		for _, a := range e.Attrs {
			if backend == "boltdb" || !strings.EqualFold(a.Name, "userPassword") {
				n.Attrs = append(n.Attrs, a)
			}
		}
		r.es = append(r.es, n)
	}
	r.full = model.CanonEntries(r.es)
	return r, nil
}

func c11Judge(c *run.Ctx, s *c11Srv, k c11Case, cn, other *searcher) string {
	q := c11Searches[k.Search]
	var match []*model.Entry
	for _, e := range scopeOf(s.es, q.Base, q.Scope) {
		if q.Filter.Match(e) {
			match = append(match, e)
		}
	}
	limit := k.Limit
	if limit < 0 {
		limit = len(match) - limit - 2 // -1: n-1, -2: n, -3: n+1
		if limit <= 0 {
			return ""
		}
	}
	r, err := cn.do(wire.SearchOp(q.Base, q.Scope, limit, false, q.Filter.Node(), k.Attrs))
	if err != nil {
		return err.Error()
	}
	if r.Code < 0 {
		return bad(r)
	}
	wantCode, wantN := int64(0), len(match)
	if limit > 0 && len(match) > limit {
		wantCode, wantN = 4, limit
	}
	if r.Code != wantCode || len(r.Entries) != wantN {
		return fmt.Sprintf("%d entries with code %d, expected %d with code %d (size limit %d, %d matches)", len(r.Entries), r.Code, wantN, wantCode, limit, len(match))
	}
	if wantN > 0 && len(k.Attrs) > 0 {
		c.Nontrivial.Add(1)
	}
	want := map[string]bool{}
	for _, e := range match {
		want[c11Want(e, k.Attrs)] = true
	}
	for _, e := range r.Entries {
		m, ok := model.FromWire(e)
		if !ok {
			return "unparsable name " + e.DN
		}
		seen := map[string]bool{}
		for _, a := range e.Attrs {
			if seen[strings.ToLower(a.Name)] {
				return fmt.Sprintf("attribute %s of %s returned twice", a.Name, e.DN)
			}
			seen[strings.ToLower(a.Name)] = true
		}
		x := model.CanonEntry(m)
		if !want[x] {
			if len(x) > 300 {
				x = x[:300] + "..."
			}
			return "unexpected or repeated entry or attributes: " + x
		}
		delete(want, x)
	}
	// later searches
	f, err := other.do(wire.SearchOp("dc=x", 2, 0, false, wire.FPresent("objectClass"), nil))
	if err != nil {
		return err.Error()
	}
	if got := model.CanonWire(f.Entries); f.Code != 0 || got != s.full {
		return fmt.Sprintf("a later search of everything gives code %d and different data: %s", f.Code, model.Diff(got, s.full))
	}
	return ""
}

func init() {
	register(&run.Check{
		ID: "C11", Level: "exploration",
		Rule:   "Every attribute list of up to three (quick: two, and sorted triples) names x size limits around the number of matches (and limits of one, two and four bytes with one or no name) x searches x both backends, each followed by a complete search on another connection. Non-trivial are searches for particular attributes that return something.",
		Assume: []string{"types-only searches and empty attribute names are left out", "which entries are returned when the limit is exceeded is free"},
		Explore: func(c *run.Ctx) {
			var lists [][]string
			lists = append(lists, nil)
			for i, a := range c11Names {
				lists = append(lists, []string{a})
				for j, b := range c11Names {
					lists = append(lists, []string{a, b})
					for l, d := range c11Names {
						if c.Thorough || i < j && j < l && (i+j+l)%3 == 0 {
							lists = append(lists, []string{a, b, d})
						}
					}
				}
			}
			limits := []int{0, 1, 2, -1, -2, -3, 1000}
			if c.Thorough {
				limits = append(limits, 3, 4, 5, 6, 7, 8, 1<<31-1)
			}
			sort.Ints(limits)
			srv := map[string]*c11Srv{}
			var cases []c11Case
			for _, b := range []string{"boltdb", "ldif"} {
				s, err := c11Start(c, b, b)
				if err != nil {
					c.Errorf("%v", err)
					return
				}
				defer s.s.Stop()
				srv[b] = s
				for q := range c11Searches {
					for _, n := range []int{127, 128, 255, 256, 257, 258, 32767, 32768, 65535, 65536, 65537, 1 << 24, 1<<24 + 1, 1<<31 - 1} {
						cases = append(cases, c11Case{b, q, nil, n}, c11Case{b, q, []string{"cn"}, n})
					}
					for _, l := range lists {
						for _, n := range limits {
							cases = append(cases, c11Case{b, q, l, n})
						}
					}
				}
			}
			conns := make([]map[string][2]*searcher, c.Workers)
			c.Par(len(cases), func(w, i int) {
				k := cases[i]
				if conns[w] == nil {
					conns[w] = map[string][2]*searcher{}
					for b, s := range srv {
						conns[w][b] = [2]*searcher{{s: s.s, dn: dir.AdminDN, pw: dir.AdminPW}, {s: s.s, dn: dir.AdminDN, pw: dir.AdminPW}}
					}
				}
				c.Announce(w, k)
				c.Evals.Add(1)
				if i%3989 == 5 {
					c.Sample(k.String())
				}
				x := conns[w][k.Backend]
				if what := c11Judge(c, srv[k.Backend], k, x[0], x[1]); what != "" {
					c.Violation(k.String()+": "+what, k.String()+": "+what, k)
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c11Case) string {
			s, err := c11Start(c, k.Backend, "r")
			if err != nil {
				return err.Error()
			}
			defer s.s.Stop()
			return c11Judge(c, s, k, &searcher{s: s.s, dn: dir.AdminDN, pw: dir.AdminPW}, &searcher{s: s.s, dn: dir.AdminDN, pw: dir.AdminPW})
		}),
	})
}
