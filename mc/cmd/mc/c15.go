package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// Two servers differ only in passwords and in the service-user file.
var c15Secrets = [2][]string{
	{"Secretone", "{SSHA}" + ssha("Secretone", "salt"), "secondsecret", "svcsecret1", "svcmail1@x"},
	{"Othertwo", "plainother", "zz{clear}", "svcsecret2", "svcmail2@x"},
}

func c15Main(v int) []dir.SeedEntry {
	s := c15Secrets[v]
	return []dir.SeedEntry{
		dir.E("dc=x", "objectClass", "domain", "dc", "x"),
		dir.E("ou=p,dc=x", "objectClass", "organizationalUnit", "ou", "p"),
		dir.E("cn=a,ou=p,dc=x", "objectClass", "person", "cn", "a", "userPassword", s[0], "mail", "a@x"),
		dir.E("cn=b,ou=p,dc=x", "objectClass", "person", "cn", "b", "USERPASSWORD", s[1], "sn", "b"),
		dir.E("cn=c,dc=x", "objectClass", "person", "userpassword", s[2], "userpassword", s[0], "cn", "c"),
		dir.E("cn=reader,dc=x", "objectClass", "person", "cn", "reader", "userPassword", "readerpw"),
		dir.E("cn=d,dc=x", "objectClass", "person", "cn", "d", "UserPassword", s[0]),
		dir.E("cn=e,ou=p,dc=x", "objectClass", "person", "cn", "e", "userPASSWORD", s[2], "uSERpASSWORD", s[0]),
		dir.E("cn=f,ou=p,dc=x", "objectClass", "person", "cn", "f", "userpAssword", s[2]),
		dir.E("cn=nopw,dc=x", "objectClass", "person", "cn", "nopw"),
	}
}

func c15Svc(v int) []dir.SeedEntry {
	s := c15Secrets[v]
	l := []dir.SeedEntry{
		dir.E("cn=svc,dc=x", "objectClass", "person", "cn", "svc", "userPassword", "svcpw", "mail", s[4]),
		dir.E("cn=svc"+fmt.Sprint(v)+",ou=p,dc=x", "objectClass", "person", "cn", "svc"+fmt.Sprint(v), "userPassword", s[3]),
	}
	if v == 1 { // an entry that also exists in the main data, with other attributes
		l = append(l, dir.E("cn=c,dc=x", "objectClass", "device", "cn", "c", "mail", s[4], "userPassword", s[3]))
	}
	return l
}

func c15Filters(thorough bool) []*model.Filter {
	var pw []*model.Filter
	for _, n := range []string{"userPassword", "USERPASSWORD", "userpassword"} {
		pw = append(pw, fpr(n), feq(n, c15Secrets[0][0]), feq(n, c15Secrets[1][0]), feq(n, ""), fsub(n, "Secret", nil, ""), fsub(n, "", []string{"e"}, ""), fsub(n, "", nil, "two"), fsub(n, "{SSHA}", nil, ""), fsub(n, "S", []string{"c", "o"}, "e"))
		if !thorough {
			break
		}
	}
	pw = append(pw, feq("UserPassword", strings.ToUpper(c15Secrets[1][1])))
	other := []*model.Filter{fpr("objectClass"), feq("cn", "a"), feq("cn", "svc"), feq("cn", "none"), feq("mail", c15Secrets[0][4]), feq("mail", c15Secrets[1][4]), fsub("mail", "svc", nil, ""), fsub("cn", "svc", nil, ""), feq("objectClass", "device"), feq("cn", "svc0"), fpr("mail"), fpr("cn")}
	l := append(append([]*model.Filter{}, pw...), other...)
	for _, f := range append(append([]*model.Filter{}, pw...), other...) {
		l = append(l, fnot(f), fnot(fnot(f)))
	}
	for _, a := range pw {
		for _, b := range append(append([]*model.Filter{}, other...), pw...) {
			l = append(l, fand(a, b), foor(b, a), fand(b, fnot(a)), foor(fnot(a), b), fnot(fand(a, b)), fnot(foor(a, b)))
		}
	}
	if thorough {
		for _, a := range pw {
			for _, b := range other {
				for _, d := range other {
					l = append(l, fand(d, foor(a, b)), foor(fand(a, b), d), fand(fnot(a), foor(b, d)))
				}
			}
		}
	}
	return l
}

var c15Attrs = [][]string{nil, {"*"}, {"userPassword"}, {"userpassword", "cn"}, {"USERPASSWORD", "*"}, {"cn", "+", "userPassword"}, {"mail"}, {"userPassword;binary"}}
var c15Bases = []string{"dc=x", "ou=p,dc=x", "cn=a,ou=p,dc=x", "cn=svc,dc=x", "cn=svc0,ou=p,dc=x", "cn=c,dc=x"}
var c15Users = [][2]string{{"cn=reader,dc=x", "readerpw"}, {"cn=svc,dc=x", "svcpw"}, {"CN=SVC,dc=x", "svcpw"}}

type c15Case struct {
	User   int           `json:"user"`
	Base   int           `json:"base"`
	Scope  int           `json:"scope"`
	Attrs  int           `json:"attrs"`
	Limit  int           `json:"limit"`
	Paged  bool          `json:"paged"`
	Filter *model.Filter `json:"filter"`
}

func (k c15Case) String() string {
	return fmt.Sprintf("%s searches base %q scope %d attributes %q size limit %d paged %v filter %s", c15Users[k.User][0], c15Bases[k.Base], k.Scope, c15Attrs[k.Attrs], k.Limit, k.Paged, k.Filter)
}

func c15Judge(c *run.Ctx, ss [2]*searcher, k c15Case) string {
	var out [2]string
	for i, s := range ss {
		var ctrls []wire.Control
		if k.Paged {
			ctrls = append(ctrls, wire.Paging(100, nil))
		}
		r, err := s.do(wire.SearchOp(c15Bases[k.Base], k.Scope, k.Limit, false, k.Filter.Node(), c15Attrs[k.Attrs]), ctrls...)
		if err != nil {
			return err.Error()
		}
		if r.Code < 0 {
			return bad(r)
		}
		for _, e := range r.Entries {
			if strings.Contains(strings.ToLower(e.DN), "svc") {
				return "service user returned: " + e.DN
			}
			for _, a := range e.Attrs {
				if strings.HasPrefix(strings.ToLower(a.Name), "userpassword") {
					return "password attribute returned of " + e.DN
				}
				for _, v := range a.Values {
					for _, secret := range append(append([]string{"readerpw", "svcpw"}, c15Secrets[0]...), c15Secrets[1]...) {
						if strings.Contains(v, secret) {
							return fmt.Sprintf("secret %q returned in %s of %s", secret, a.Name, e.DN)
						}
					}
				}
			}
		}
		out[i] = fmt.Sprintf("%d\n%s", r.Code, model.CanonWire(r.Entries))
		if len(r.Entries) > 0 {
			c.Nontrivial.Add(1)
		}
	}
	if out[0] != out[1] {
		return "the answer depends on passwords or service users: " + model.Diff(out[0], out[1])
	}
	return ""
}

func c15Start(c *run.Ctx, tag string) ([2]*wire.Srv, error) {
	var r [2]*wire.Srv
	for v := range r {
		s, err := wire.Start(ldifConfig(filepath.Join(c.Scratch, fmt.Sprintf("c15-%s-%d", tag, v)), ldifText(c15Main(v)), ldifText(c15Svc(v))))
		if err != nil {
			return r, err
		}
		r[v] = s
	}
	return r, nil
}

// c15Fixed checks that passwords and service users work.
func c15Fixed(srv [2]*wire.Srv) string {
	// binds
	for v, s := range srv {
		for _, e := range append(c15Svc(v), c15Main(v)...) {
			if v == 1 && e.DN == "cn=c,dc=x" || e.DN == "cn=e,ou=p,dc=x" {
				continue // exists twice or has several passwords
			}
			for _, a := range e.Attrs {
				if !strings.EqualFold(a.Name, "userPassword") {
					continue
				}
				for i, pw := range a.Values[:1] {
					if strings.HasPrefix(pw, "{SSHA}") {
						pw = "Secretone"
					}
					r := s.Dial().Bind(e.DN, pw)
					x := s.Dial().Bind(e.DN, pw+"x")
					if r.Code != 0 || x.Code == 0 {
						what := fmt.Sprintf("%s binds with its password: %d, with another: %d (value %d)", e.DN, r.Code, x.Code, i)
						return what
					}
				}
			}
		}
	}
	// A name that is in both files has one password.
	r0, r1 := srv[1].Dial().Bind("cn=c,dc=x", c15Secrets[1][2]), srv[1].Dial().Bind("cn=c,dc=x", c15Secrets[1][3])
	if (r0.Code == 0) == (r1.Code == 0) {
		return fmt.Sprintf("cn=c,dc=x, a user and a service user, binds with the one's password: %d, with the other's: %d", r0.Code, r1.Code)
	}
	// A service user reads what a normal user reads.
	for _, s := range srv {
		var out []string
		for _, u := range c15Users {
			cn := s.Dial()
			cn.Bind(u[0], u[1])
			t, err := dir.ContentOf(cn, "dc=x")
			if err != nil {
				t = err.Error()
			}
			out = append(out, t)
		}
		if out[0] != out[1] || out[0] != out[2] || strings.Count(out[0], "\n") != 9 {
			what := "a service user does not read what others read: " + model.Diff(out[1]+"\n"+out[2], out[0]+"\n"+out[0])
			return what
		}
	}
	return ""
}

func init() {
	register(&run.Check{
		ID: "C15", Level: "exploration",
		Rule:   "Every search of the vocabulary (filters on the password attribute alone and combined, attribute lists, bases, scopes, limits, paging, users) is sent to two servers that differ only in passwords and service users; answers must be equal and free of secrets; service users must be able to bind and must read what others read. Non-trivial are answers with entries.",
		Assume: []string{"both servers have a password on the same entries"},
		Explore: func(c *run.Ctx) {
			srv, err := c15Start(c, "e")
			if err != nil {
				c.Errorf("%v", err)
				return
			}
			defer srv[0].Stop()
			defer srv[1].Stop()
			if what := c15Fixed(srv); what != "" {
				c.Violation(what, what, c15Case{})
			}
			var cases []c15Case
			for fi, f := range c15Filters(c.Thorough) {
				for u := range c15Users {
					for b := range c15Bases {
						for sc := 0; sc < 3; sc++ {
							for at := range c15Attrs {
								for _, lim := range []int{0, 2} {
									for _, pg := range []bool{false, true} {
										odd := (fi+u+b+sc+at)%5 != 0
										if b == 0 && sc == 2 && (lim == 0 && !pg || !odd) || !odd && (c.Thorough || fi%6 == 0 || fi < 60) {
											cases = append(cases, c15Case{u, b, sc, at, lim, pg, f})
										}
									}
								}
							}
						}
					}
				}
			}
			conns := make([][][2]*searcher, c.Workers)
			c.Par(len(cases), func(w, i int) {
				k := cases[i]
				if conns[w] == nil {
					for _, u := range c15Users {
						conns[w] = append(conns[w], [2]*searcher{{s: srv[0], dn: u[0], pw: u[1]}, {s: srv[1], dn: u[0], pw: u[1]}})
					}
				}
				c.Announce(w, k)
				c.Evals.Add(1)
				if i%9973 == 5 {
					c.Sample(k.String())
				}
				if what := c15Judge(c, conns[w][k.User], k); what != "" {
					c.Violation(k.String()+": "+what, k.String()+": "+what, k)
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c15Case) string {
			srv, err := c15Start(c, "r")
			if err != nil {
				return err.Error()
			}
			defer srv[0].Stop()
			defer srv[1].Stop()
			if k.Filter == nil {
				return c15Fixed(srv)
			}
			u := c15Users[k.User]
			return c15Judge(c, [2]*searcher{{s: srv[0], dn: u[0], pw: u[1]}, {s: srv[1], dn: u[0], pw: u[1]}}, k)
		}),
	})
}
