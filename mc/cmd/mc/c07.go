package main

import (
	"fmt"
	"path/filepath"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

var c07Addrs = []struct {
	net, addr string
	loop      bool
}{
	{"tcp", "127.0.0.1:40000", true},
	{"tcp", "127.255.255.254:1", true},
	{"tcp", "[::1]:40000", true},
	{"tcp", "128.0.0.1:40000", false},
	{"tcp", "126.255.255.255:40000", false},
	{"tcp", "10.0.0.1:40000", false},
	{"tcp", "192.168.127.1:127", false},
	{"tcp", "0.0.0.0:40000", false},
	{"tcp", "1.127.0.0:40000", false},
	{"tcp", "[::]:40000", false},
	{"tcp", "[::2]:40000", false},
	{"tcp", "[1::1]:40000", false},
	{"tcp", "[fe80::1%lo]:40000", false},
	{"tcp", "[2001:db8::7f00:1]:40000", false},
	{"tcp", "[::ffff:10.0.0.1]:40000", false},
	{"tcp", "[::ffff:127.0.0.1]:40000", true},
	{"tcp", "172.16.0.1:40000", false},
	{"tcp", "169.254.0.1:40000", false},
	{"tcp", "100.64.0.1:40000", false},
	{"tcp", "224.0.0.1:40000", false},
	{"tcp", "255.255.255.255:40000", false},
	{"tcp", "[fe80::1]:40000", false},
	{"tcp", "[fc00::1]:40000", false},
	{"tcp", "[ff01::1]:40000", false},
	{"tcp", "[::1:1]:40000", false},
	{"tcp", "[::127.0.0.1]:40000", false},
	{"tcp", ":40000", false},
	{"tcp", "localhost.example.com:40000", false},
	{"tcp", "", false},
}

// Session prefixes. anon: the connection ends up without a successful bind of a name.
var c07Sess = []struct {
	name string
	ops  []*ber.Node
	anon bool
}{
	{"fresh", nil, true},
	{"anonymous bind", []*ber.Node{wire.BindOp("", "")}, true},
	{"wrong password", []*ber.Node{wire.BindOp(c06A, "x")}, true},
	{"name without password", []*ber.Node{wire.BindOp(c06A, "")}, true},
	{"password without name", []*ber.Node{wire.BindOp("", "pwa")}, true},
	{"sasl", []*ber.Node{wire.SASLBindOp("", "EXTERNAL", "")}, true},
	{"sasl anonymous", []*ber.Node{wire.SASLBindOp("", "ANONYMOUS", "me")}, true},
	{"user then anonymous bind", []*ber.Node{wire.BindOp(c06A, "pwa"), wire.BindOp("", "")}, true},
	{"user then wrong password", []*ber.Node{wire.BindOp(c06A, "pwa"), wire.BindOp(c06A, "x")}, true},
	{"user then sasl", []*ber.Node{wire.BindOp(c06A, "pwa"), wire.SASLBindOp("", "EXTERNAL", "")}, true},
	{"user", []*ber.Node{wire.BindOp(c06A, "pwa")}, false},
	{"anonymous then user", []*ber.Node{wire.BindOp("", ""), wire.BindOp(c06A, "pwa")}, false},
}

var c07Bases = []string{"dc=x", "ou=p,dc=x", c06A, "DC=X", "", "cn=missing,dc=x"}

func c07Filters() []*ber.Node {
	return []*ber.Node{
		wire.FPresent("objectClass"),
		wire.FEq("cn", "a"),
		wire.FNot(wire.FEq("cn", "a")),
		wire.FSub("cn", "a", nil, ""),
		wire.FOr(wire.FEq("uid", "x"), wire.FPresent("userPassword")),
		wire.FEq("description", "zz"),
	}
}

var c07Attrs = [][]string{nil, {"cn"}, {"*"}, {"1.1"}, {"userPassword"}}

type c07Case struct {
	Backend string `json:"backend"`
	Enabled bool   `json:"enabled"`
	Addr    int    `json:"addr"`
	Sess    int    `json:"sess"`
	Base    int    `json:"base"`
	Scope   int    `json:"scope"`
	Filter  int    `json:"filter"`
	Attrs   int    `json:"attrs"`
	Paged   bool   `json:"paged"`
	Limit   int    `json:"limit"`
}

func c07Start(c *run.Ctx, backend string, enabled bool, tag string) (*wire.Srv, error) {
	p := filepath.Join(c.Scratch, "c07-"+tag)
	if backend == "boltdb" {
		if _, err := dir.Seed(p+".db", dir.Base, usersSeed()); err != nil {
			return nil, err
		}
		cfg := dir.Config(p + ".db")
		cfg.LDAPAllowLocalAnonymousBind = enabled
		return wire.Start(cfg)
	}
	svc := ""
	if backend == "ldif+users" {
		svc = ldifText([]dir.SeedEntry{dir.E("cn=svc,dc=x", "objectClass", "person", "cn", "svc", "userPassword", "svcpw")})
	}
	cfg := ldifConfig(p, ldifText(usersSeed()), svc)
	cfg.LDAPAllowLocalAnonymousBind = enabled
	return wire.Start(cfg)
}

func c07Judge(c *run.Ctx, s *wire.Srv, k c07Case) string {
	a := c07Addrs[k.Addr]
	cn := s.DialFrom(wire.Addr{Net: a.net, S: a.addr})
	defer cn.Close()
	open := k.Enabled && a.loop
	for i, op := range c07Sess[k.Sess].ops {
		r := cn.Do(op.Clone())
		if x := bad(r); x != "" {
			return "bind: " + x
		}
		pw := op.Kids[2]
		if pw.Tag != 0x80 && !open && r.Code == 0 {
			return fmt.Sprintf("SASL bind (step %d) from %s with anonymous access %v succeeds", i, a.addr, k.Enabled)
		}
		if len(op.Kids[1].Val) == 0 && pw.Tag == 0x80 && len(pw.Val) == 0 {
			if (r.Code == 0) != open {
				return fmt.Sprintf("anonymous bind (step %d) from %s with anonymous access %v is answered with %d", i, a.addr, k.Enabled, r.Code)
			}
		}
	}
	var ctrls []wire.Control
	if k.Paged {
		ctrls = append(ctrls, wire.Paging(2, nil))
	}
	r := cn.Do(wire.SearchOp(c07Bases[k.Base], k.Scope, k.Limit, false, c07Filters()[k.Filter], c07Attrs[k.Attrs]), ctrls...)
	if x := bad(r); x != "" {
		return "search: " + x
	}
	if !open && c07Sess[k.Sess].anon {
		if len(r.Entries) > 0 {
			return fmt.Sprintf("an anonymous client (%s) at %s with anonymous access %v gets %d entries, e.g. %q", c07Sess[k.Sess].name, a.addr, k.Enabled, len(r.Entries), r.Entries[0].DN)
		}
		c.Outcome(fmt.Sprintf("%s closed code=%d", k.Backend, r.Code))
		return ""
	}
	c.Nontrivial.Add(1)
	if k.Base == 0 && k.Scope == model.ScopeSub && k.Filter == 0 && k.Limit == 0 && (r.Code != 0 || len(r.Entries) == 0) {
		return fmt.Sprintf("a client (%s) at %s with anonymous access %v cannot read: answer %d, %d entries", c07Sess[k.Sess].name, a.addr, k.Enabled, r.Code, len(r.Entries))
	}
	c.Outcome(fmt.Sprintf("%s open code=%d entries>0=%v", k.Backend, r.Code, len(r.Entries) > 0))
	return ""
}

func init() {
	register(&run.Check{
		ID: "C07", Level: "exploration",
		Rule:   "Complete enumeration of backend x setting x client address x session history x search (base, scope, filter, attributes, size limit, paging); non-trivial are the cases in which the client may read.",
		Assume: []string{"the client address is the one the connection reports"},
		Explore: func(c *run.Ctx) {
			type cfg struct {
				b  string
				en bool
			}
			var cfgs []cfg
			srv := map[cfg]*wire.Srv{}
			for _, b := range []string{"boltdb", "ldif", "ldif+users"} {
				for _, en := range []bool{false, true} {
					s, err := c07Start(c, b, en, fmt.Sprintf("%s-%v", b, en))
					if err != nil {
						c.Errorf("start %s: %v", b, err)
						return
					}
					defer s.Stop()
					srv[cfg{b, en}] = s
					cfgs = append(cfgs, cfg{b, en})
				}
			}
			var cases []c07Case
			for _, cf := range cfgs {
				for a := range c07Addrs {
					for se := range c07Sess {
						for b := range c07Bases {
							for sc := 0; sc < 3; sc++ {
								for f := range c07Filters() {
									for at := range c07Attrs {
										for _, pg := range []bool{false, true} {
											for _, lim := range []int{0, 1} {
												if !c.Thorough && (at > 0 || pg || lim > 0) && (b > 0 || sc < 2) {
													continue
												}
												cases = append(cases, c07Case{cf.b, cf.en, a, se, b, sc, f, at, pg, lim})
											}
										}
									}
								}
							}
						}
					}
				}
			}
			c.Par(len(cases), func(w, i int) {
				k := cases[i]
				c.Announce(w, k)
				c.Evals.Add(1)
				if i%9973 == 11 {
					c.Sample(k)
				}
				if what := c07Judge(c, srv[cfg{k.Backend, k.Enabled}], k); what != "" {
					c.Violation(what, what, k)
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c07Case) string {
			s, err := c07Start(c, k.Backend, k.Enabled, "r")
			if err != nil {
				return err.Error()
			}
			defer s.Stop()
			return c07Judge(c, s, k)
		}),
	})
}
