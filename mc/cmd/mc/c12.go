package main

import (
	"fmt"
	"path/filepath"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

var c12Bases = []string{"dc=x", "ou=a,dc=x", "ou=b,dc=x", "cn=b,dc=x", "cn=ab,dc=x", "cn=a,ou=a,dc=x", "DC=X", "OU=A,dc=X", "cn=x,cn=b,dc=x", "cn=missing,dc=x", "cn=x,dc=x", "ou=gone,dc=x", "dc=y", "b,dc=x", "xou=a,dc=x", "ou=aa,dc=x", "ou=many,dc=x"}

func c12Seed(many int) []dir.SeedEntry {
	l := searchSeed(false)
	// Many entries with the same values, not in the order of their names.
	for i := 0; i < many; i++ {
		n := (i * 37) % many
		cn := fmt.Sprintf("same%d", n)
		l = append(l, dir.E("cn="+cn+",ou=many,dc=x", "objectClass", "account", "cn", cn, "cn", fmt.Sprintf("Group%d", n%2), "sn", "Group", "uid", fmt.Sprintf("g%d", n%3), "description", "Group"))
	}
	return append(l,
		dir.E("cn=orphan,ou=gone,dc=x", "objectClass", "person", "cn", "orphan", "uid", "u1", "description", "a"),
		dir.E("CN=Upper,OU=A,DC=X", "OBJECTCLASS", "PERSON", "CN", "Upper", "MAIL", "A@X.Y", "Description", "AbAb"),
	)
}

type c12Case struct {
	searchCase
	Dir   int `json:"dir,omitempty"` // the directory with few or with many entries
	Deref int `json:"deref,omitempty"`
	Time  int `json:"time,omitempty"`
}

func c12Judge(c *run.Ctx, s *searcher, kc keyCache, es []*model.Entry, k c12Case) string {
	r, err := s.do(wire.Tune(wire.SearchOp(k.Base, k.Scope, 0, false, k.Filter.Node(), nil), k.Deref, k.Time))
	if err != nil {
		return err.Error()
	}
	if r.Code < 0 {
		return bad(r)
	}
	var want []*model.Entry
	in := scopeOf(es, k.Base, k.Scope)
	for _, e := range in {
		if k.Filter.Match(e) {
			want = append(want, e)
		}
	}
	if r.Code != 0 {
		if len(in) == 0 && len(r.Entries) == 0 {
			return ""
		}
		return fmt.Sprintf("answered with %d", r.Code)
	}
	if len(want) > 0 {
		c.Nontrivial.Add(1)
	}
	return sameNames(kc, r.Entries, want)
}

func init() {
	setup := func(c *run.Ctx, many int) (*wire.Srv, []*model.Entry, error) {
		s, err := wire.Start(ldifConfig(filepath.Join(c.Scratch, fmt.Sprintf("ldif%d", many)), searchLDIF(c12Seed(many)), ""))
		return s, modelEntries(c12Seed(many)), err
	}
	sizes := [2]int{70, 1300}
	register(&run.Check{
		ID: "C12", Level: "exploration",
		Rule:   "Every filter of the vocabulary (on attributes with every kind of index and without one; up to three substring pieces, special characters, nested and/or/not) on every search base and scope (quick: every filter on the whole tree, every fifth on each other base and scope) of a fixed LDIF directory, and filters that match many entries on one of more than a thousand, a part of these with every treatment of aliases and several time limits, compared with a direct evaluation of every entry. Non-trivial are searches that match something.",
		Assume: []string{"names are given in the spelling of the file or in other letter case", "for a base without entries in scope the result code is not judged"},
		Explore: func(c *run.Ctx) {
			var srv [2]*wire.Srv
			var es [2][]*model.Entry
			for i, n := range sizes {
				s, l, err := setup(c, n)
				if err != nil {
					c.Errorf("%v", err)
					return
				}
				defer s.Stop()
				srv[i], es[i] = s, l
			}
			var cases []c12Case
			for _, k := range searchCases(c, c12Bases) {
				cases = append(cases, c12Case{searchCase: k})
			}
			for _, b := range []string{"dc=x", "ou=many,dc=x", "ou=a,dc=x"} {
				for sc := 0; sc < 3; sc++ {
					for _, f := range []*model.Filter{feq("objectClass", "account"), feq("cn", "group0"), feq("cn", "GROUP1"), feq("sn", "group"), feq("uid", "g0"), feq("uid", "G1"), feq("description", "group"),
						fsub("cn", "same", nil, ""), fsub("cn", "", nil, "7"), fsub("sn", "gr", nil, "up"), fsub("cn", "", []string{"m"}, ""), fpr("sn"),
						fand(feq("cn", "group0"), feq("uid", "g1")), foor(feq("cn", "group0"), feq("uid", "g1")), fand(feq("objectClass", "account"), fnot(feq("uid", "g1"))), fand(fsub("cn", "same", nil, ""), feq("sn", "group"))} {
						cases = append(cases, c12Case{searchCase: searchCase{b, sc, f}}, c12Case{searchCase: searchCase{b, sc, f}, Dir: 1})
					}
				}
			}
			for i, k := range cases {
				if i%61 == 0 || k.Dir > 0 {
					for deref := 0; deref < 4; deref++ {
						for _, t := range someTimes {
							cases = append(cases, c12Case{k.searchCase, k.Dir, deref, t})
						}
					}
				}
			}
			ss, kcs := make([][2]*searcher, c.Workers), make([]keyCache, c.Workers)
			c.Par(len(cases), func(w, i int) {
				if kcs[w] == nil {
					kcs[w] = keyCache{}
					for j := range srv {
						ss[w][j] = &searcher{s: srv[j], dn: dir.AdminDN, pw: dir.AdminPW}
					}
				}
				k := cases[i]
				c.Announce(w, k)
				c.Evals.Add(1)
				if i%7919 == 5 {
					c.Sample(k.String())
				}
				if what := c12Judge(c, ss[w][k.Dir], kcs[w], es[k.Dir], k); what != "" {
					c.Violation(k.String()+": "+what, k.String()+": "+what, k)
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c12Case) string {
			s, es, err := setup(c, sizes[k.Dir])
			if err != nil {
				return err.Error()
			}
			defer s.Stop()
			return c12Judge(c, &searcher{s: s, dn: dir.AdminDN, pw: dir.AdminPW}, keyCache{}, es, k)
		}),
	})
}
