package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// The directory of C13 exists in two versions. Version v has entries e0..e9; entry i belongs to the groups n > i
// (attribute uid, indexed; attribute description, not indexed), so that a filter on group n matches n entries.
func c13Data(v int) []dir.SeedEntry {
	l := []dir.SeedEntry{
		dir.E("dc=x", "objectClass", "domain", "dc", "x"),
		dir.E(dir.AdminDN, "objectClass", "person", "cn", "admin", "userPassword", dir.AdminPW),
	}
	for i := 0; i < 12; i++ {
		e := dir.E(fmt.Sprintf("cn=v%de%d,dc=x", v, i), "objectClass", "person", "cn", fmt.Sprintf("v%de%d", v, i))
		for n := i + 1; n <= 12; n++ {
			e.Attrs = addVal(addVal(e.Attrs, "uid", fmt.Sprintf("g%d", n)), "description", fmt.Sprintf("g%d", n))
		}
		if i%2 == 0 {
			e.Attrs = addVal(e.Attrs, "mail", fmt.Sprintf("m%d", i))
		}
		l = append(l, e)
	}
	return l
}

func addVal(as []model.Attr, name, v string) []model.Attr {
	for i := range as {
		if as[i].Name == name {
			as[i].Values = append(as[i].Values, v)
			return as
		}
	}
	return append(as, model.Attr{Name: name, Values: []string{v}})
}

// c13Filter of kind k matching n entries.
func c13Filter(kind, n int) *model.Filter {
	g := fmt.Sprintf("g%d", n)
	switch kind {
	case 0:
		return feq("uid", g)
	case 1:
		return feq("description", g)
	case 2:
		return foor(feq("uid", g), feq("uid", "g1"), fand(feq("objectClass", "person"), feq("uid", g)))
	}
	return fand(fnot(fnot(feq("description", g))), fpr("objectClass"))
}

func c13Match(v, kind, n int) []string {
	var r []string
	f := c13Filter(kind, n)
	for _, e := range modelEntries(c13Data(v)) {
		if f.Match(e) {
			r = append(r, e.DN.Key())
		}
	}
	sort.Strings(r)
	return r
}

// One paged search: filter kind, matches, first page size, later page sizes.
type c13Spec struct {
	Kind int `json:"k"`
	N    int `json:"n"`
	S1   int `json:"s1"`
	S2   int `json:"s2"`
}

type c13Case struct {
	Users  bool       `json:"users"` // with a service user file
	Spec   [2]c13Spec `json:"spec"`
	Events string     `json:"events"`
	Crowd  int        `json:"crowd,omitempty"` // this many searches at the same time, page by page in turn
}

// Events: p, q advance a paged search (starting it anew when complete); a, b abandon it; u unknown cookie on another
// connection; U on p's own; s plain search; r reload with other data; f failing reload; c drop q's connection;
// z page request with the cookie of a finished or abandoned search.
const c13Alphabet = "pqabuUsrfcz"

func (k c13Case) String() string {
	return fmt.Sprintf("service users %v, searches %+v, events %q, crowd %d", k.Users, k.Spec, k.Events, k.Crowd)
}

type c13Paged struct {
	spec   c13Spec
	cn     *searcher
	cookie []byte
	want   []string // what an unpaged search gave at the start, nil if not running
	got    []string
	pages  int
	done   []byte // cookie of an earlier, finished or abandoned search
}

// advance requests one page. A finished search is judged and reset.
func (p *c13Paged) advance(c *run.Ctx, active int) string {
	size := p.spec.S2
	fresh := p.want == nil
	if fresh {
		p.want, p.got, p.pages, p.cookie, size = c13Match(active, p.spec.Kind, p.spec.N), nil, 0, nil, p.spec.S1
		if p.want == nil {
			p.want = []string{}
		}
	}
	r, err := p.cn.do(wire.SearchOp("dc=x", 2, 0, false, c13Filter(p.spec.Kind, p.spec.N).Node(), []string{"cn"}), wire.Paging(int64(size), p.cookie))
	if err != nil {
		return err.Error()
	}
	if r.Code != 0 {
		return fmt.Sprintf("page %d of a paged search is answered with %d %s", p.pages+1, r.Code, bad(r))
	}
	p.pages++
	if len(r.Entries) > size {
		return fmt.Sprintf("a page of %d entries instead of at most %d", len(r.Entries), size)
	}
	for _, e := range r.Entries {
		d, err := model.ParseDN(e.DN)
		if err != nil {
			return "unparsable name " + e.DN
		}
		p.got = append(p.got, d.Key())
	}
	_, cookie, ok := wire.PagingOf(r)
	if !ok {
		return "the answer has no paging control"
	}
	if len(cookie) > 0 {
		p.cookie = append([]byte{}, cookie...)
		if p.pages > len(p.want)+2 {
			return fmt.Sprintf("no end after %d pages for %d entries", p.pages, len(p.want))
		}
		return ""
	}
	sort.Strings(p.got)
	got, want := strings.Join(p.got, " "), strings.Join(p.want, " ")
	if got != want {
		return fmt.Sprintf("the pages gave [%s], an unpaged search at the start [%s]", got, want)
	}
	if p.pages > 1 {
		c.Nontrivial.Add(1)
	}
	if p.cookie != nil {
		p.done = p.cookie
	}
	p.want = nil
	p.cookie = nil
	return ""
}

func c13Judge(c *run.Ctx, w int, k c13Case) string {
	d := filepath.Join(c.Scratch, fmt.Sprintf("c13-%d", w))
	svc := ""
	if k.Users {
		svc = ldifText([]dir.SeedEntry{dir.E("cn=svc,dc=x", "objectClass", "person", "cn", "svc", "userPassword", "svcpw")})
	}
	text := [2]string{ldifText(c13Data(0)), ldifText(c13Data(1))}
	active := 0
	cfg := ldifConfig(d, text[0], svc)
	s, err := wire.Start(cfg)
	if err != nil {
		return err.Error()
	}
	defer s.Stop()
	mk := func() *searcher { return &searcher{s: s, dn: dir.AdminDN, pw: dir.AdminPW} }
	p := [2]*c13Paged{{spec: k.Spec[0], cn: mk()}, {spec: k.Spec[1], cn: mk()}}
	third := mk()
	odd := func(cn *searcher, what string, size int, cookie []byte) string {
		r, err := cn.do(wire.SearchOp("dc=x", 2, 0, false, c13Filter(0, 5).Node(), nil), wire.Paging(int64(size), cookie))
		if err != nil {
			return err.Error()
		}
		if r.Code < 0 {
			return what + ": " + bad(r)
		}
		if len(r.Entries) > 0 {
			return fmt.Sprintf("%s gives %d entries", what, len(r.Entries))
		}
		return ""
	}
	plain := func() string {
		for kind := 0; kind < 2; kind++ {
			r, err := third.do(wire.SearchOp("dc=x", 2, 0, false, c13Filter(kind, 7).Node(), nil))
			if err != nil {
				return err.Error()
			}
			var got []string
			for _, e := range r.Entries {
				x, _ := model.ParseDN(e.DN)
				got = append(got, x.Key())
			}
			sort.Strings(got)
			if a, b := strings.Join(got, " "), strings.Join(c13Match(active, kind, 7), " "); r.Code != 0 || a != b {
				return fmt.Sprintf("unpaged search: %d [%s], expected [%s]", r.Code, a, b)
			}
		}
		return ""
	}
	if k.Crowd > 0 {
		conns := []*searcher{mk(), mk(), mk()}
		var l []*c13Paged
		for i := 0; i < k.Crowd; i++ {
			l = append(l, &c13Paged{spec: c13Spec{i % 4, 5 + i%4, 1 + i%3, 1 + i/3%3}, cn: conns[i%3]})
		}
		for n := 0; n < 12; n++ {
			for i, x := range l {
				if n > 0 && x.want == nil {
					continue
				}
				c.Trans.Add(1)
				if what := x.advance(c, active); what != "" {
					return fmt.Sprintf("search %d of %d at the same time: %s", i+1, k.Crowd, what)
				}
			}
		}
	}
	for i, ev := range k.Events {
		what := ""
		c.Trans.Add(1)
		switch ev {
		case 'p', 'q':
			what = p[ev-'p'].advance(c, active)
		case 'a', 'b':
			x := p[ev-'a']
			if x.want != nil && x.cookie != nil {
				what = odd(x.cn, "abandoning a paged search", 0, x.cookie)
				x.done = x.cookie
				x.want, x.cookie = nil, nil
			}
		case 'u':
			what = odd(third, "an unknown cookie", 3, []byte("nosuchcookie"))
			if what == "" {
				what = odd(third, "abandoning an unknown cookie", 0, []byte("nosuchcookie"))
			}
		case 'U':
			what = odd(p[0].cn, "an unknown cookie", 1, []byte("\x00"))
		case 'z':
			for _, x := range p {
				if x.done != nil && what == "" {
					what = odd(third, "the cookie of a finished or abandoned search", 2, x.done)
				}
			}
		case 's':
			what = plain()
		case 'r':
			active = 1 - active
			writeFile(cfg.LDIFMain, text[active])
			if err := s.Reload(); err != nil {
				what = "reload: " + err.Error()
			}
		case 'f':
			writeFile(cfg.LDIFMain, text[1-active]+"broken")
			if err := s.Reload(); err == nil {
				what = "reload of a broken file succeeds"
			}
		case 'c':
			if p[1].cn.c != nil {
				p[1].cn.c.Close()
				p[1].cn.c = nil
			}
			p[1].want, p[1].cookie = nil, nil
		}
		if what != "" {
			return fmt.Sprintf("event %d (%c): %s", i+1, ev, what)
		}
	}
	// drain
	for n := 0; n < 40; n++ {
		open := false
		for _, x := range p {
			if x.want != nil {
				open = true
				c.Trans.Add(1)
				if what := x.advance(c, active); what != "" {
					return "completing: " + what
				}
			}
		}
		if !open {
			return plain()
		}
	}
	return "a paged search does not end"
}

func init() {
	register(&run.Check{
		ID: "C13", Level: "model_checking",
		Rule:   "All event sequences up to a length over two interleaved paged searches, abandons, unknown and finished cookies, unpaged searches, successful and failing reloads and a lost connection, for several match counts and page sizes, and every pair of events forty times in a row; up to 150 paged searches at the same time; and the grid of match counts x first and later page sizes x filter kinds.",
		Assume: []string{"page size 0 without a cookie and size limits smaller than pages are left out"},
		Explore: func(c *run.Ctx) {
			var cases []c13Case
			maxN, maxS := 9, 10
			if c.Thorough {
				maxN, maxS = 12, 14
			}
			for kind := 0; kind < 4; kind++ {
				for n := 0; n <= maxN; n++ {
					for s1 := 1; s1 <= maxS; s1++ {
						for s2 := 1; s2 <= maxS; s2++ {
							if !c.Thorough && s1 != s2 && (s1+s2)%4 != kind {
								continue
							}
							x := c13Spec{kind, n, s1, s2}
							cases = append(cases, c13Case{Users: n%2 == 0, Spec: [2]c13Spec{x, x}, Events: "p"})
						}
					}
				}
			}
			grid := len(cases)
			c.Extra("grid", grid)
			specs := [][2]c13Spec{
				{{0, 4, 2, 2}, {1, 3, 1, 1}},
				{{1, 6, 2, 3}, {0, 5, 2, 2}},
				{{2, 3, 1, 2}, {3, 4, 3, 1}},
			}
			depth := 4
			if c.Thorough {
				depth = 5
			}
			var rec func(s string)
			rec = func(s string) {
				if s != "" {
					for i, sp := range specs {
						if len(s) < depth || c.Thorough || i == 0 {
							cases = append(cases, c13Case{Users: (len(s)+i)%2 == 0, Spec: sp, Events: s})
						}
					}
				}
				if len(s) < depth {
					for _, e := range c13Alphabet {
						rec(s + string(e))
					}
				}
			}
			rec("")
			// Long runs.
			for _, a := range c13Alphabet {
				for _, b := range c13Alphabet {
					cases = append(cases, c13Case{Users: a < b, Spec: specs[int(a+b)%len(specs)], Events: strings.Repeat(string(a)+string(b)+"p", 40)})
				}
			}
			for _, n := range []int{3, 20, 70, 150} {
				cases = append(cases, c13Case{Users: n%2 == 0, Spec: specs[0], Crowd: n, Events: "ps"})
			}
			c.Extra("event_sequences", len(cases)-grid)
			c.Par(len(cases), func(w, i int) {
				k := cases[i]
				c.Announce(w, k)
				c.Traces.Add(1)
				c.States.Add(1)
				if i%1999 == 5 {
					c.Sample(k)
				}
				if what := c13Judge(c, w, k); what != "" {
					c.Violation(k.String()+": "+what, k.String()+": "+what, k)
				}
			})
		},
		Replay: replayOf(c13Judge),
	})
}
