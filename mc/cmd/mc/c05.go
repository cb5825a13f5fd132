package main

import (
	"fmt"
	"path/filepath"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// A session event: a bind of some kind with the identity it gives.
type sessEv struct {
	name string
	op   func() *ber.Node
	id   string // identity after it: the name of an entry or "anon"
}

func bindEv(name, dn, pw, id string) sessEv {
	return sessEv{name, func() *ber.Node { return wire.BindOp(dn, pw) }, id}
}

func c05Events() []sessEv {
	return []sessEv{
		bindEv("admin", dir.AdminDN, dir.AdminPW, dir.AdminDN),
		bindEv("admin, other case", "CN=Admin,DC=X", dir.AdminPW, dir.AdminDN),
		bindEv("admin, spaces", "cn=admin , dc=x", dir.AdminPW, dir.AdminDN),
		bindEv("admin, escaped", "cn=\\61dmi\\6E,dc=x", dir.AdminPW, dir.AdminDN),
		bindEv("user a", "cn=a,ou=p,dc=x", "pwa", "cn=a,ou=p,dc=x"),
		bindEv("user admin below p", "cn=admin,ou=p,dc=x", "pwc", "cn=admin,ou=p,dc=x"),
		bindEv("user adminx", "cn=adminx,dc=x", "pwd", "cn=adminx,dc=x"),
		bindEv("user below admin", "cn=k,cn=admin,dc=x", "pwk", "cn=k,cn=admin,dc=x"),
		bindEv("user xcn=admin", "xcn=admin,dc=x", "pwx", "xcn=admin,dc=x"),
		bindEv("admin, wrong password", dir.AdminDN, "wrong", "anon"),
		bindEv("admin, no password", dir.AdminDN, "", "anon"),
		bindEv("unknown", "cn=zz,dc=x", "x", "anon"),
		bindEv("anonymous", "", "", "anon"),
		bindEv("broken name", "cn=admin,,dc=x", "x", "anon"),
		{"sasl as admin", func() *ber.Node { return wire.SASLBindOp(dir.AdminDN, "PLAIN", "\x00"+dir.AdminDN+"\x00"+dir.AdminPW) }, "anon"},
		{"delete a missing entry", func() *ber.Node { return wire.DelOp("cn=missing,dc=x") }, ""},
		{"unknown extended operation", func() *ber.Node { return wire.ExtOp("1.2.3.4", []byte("x")) }, ""},
		{"password change of another user, wrong old password", func() *ber.Node {
			u, o, n := "cn=b,ou=p,dc=x", "wrong", "pwn"
			return wire.PwModOp(&u, &o, &n, false)
		}, ""},
	}
}

func c05Writes() []dir.Op {
	return []dir.Op{
		addOp("cn=new,ou=p,dc=x", "cn", "new"),
		delOp("cn=b,ou=p,dc=x"),
		modOp("cn=b,ou=p,dc=x", ch(model.Replace, "sn", "changed")),
		modOp("cn=a,ou=p,dc=x", ch(model.Replace, "userPassword", "changed")),
		renOp("cn=b,ou=p,dc=x", "cn=bb", true),
		addOp("cn=x,cn=admin,dc=x", "cn", "x"),
		modOp("cn=k,cn=admin,dc=x", ch(model.Replace, "description", "changed")),
		modOp(dir.AdminDN, ch(model.Replace, "description", "changed")),
		delOp("xcn=admin,dc=x"),
		renOp("cn=a,ou=p,dc=x", "cn=aa", true),
	}
}

// Configured administrator names; entry is the entry that is the administrator then.
var c05Admins = []struct{ dn, entry string }{
	{"cn=admin,dc=x", dir.AdminDN},
	{"CN=ADMIN, DC=X", dir.AdminDN},
	{"cn=\\61dmin,dc=x", dir.AdminDN},
	{"", ""},
	{"cn=admin,dc=y", ""},
	{"cn=adm,dc=x", ""},
	{"dc=x", ""},
	{"cn=k,cn=admin,dc=x", "cn=k,cn=admin,dc=x"},
}

type c05Case struct {
	Backend string `json:"backend"`
	Admin   int    `json:"admin"`
	Anon    bool   `json:"anon"`
	Events  []int  `json:"events"`
	Write   int    `json:"write"`
	Ctl     int    `json:"ctl,omitempty"`  // controls of all requests
	Crit    bool   `json:"crit,omitempty"` // the write's controls are critical
}

func c05Judge(seed []byte) func(c *run.Ctx, w int, k c05Case) string {
	evs, writes := c05Events(), c05Writes()
	tree := dir.Tree(dir.Base, usersSeed())
	return func(c *run.Ctx, w int, k c05Case) string {
		d := filepath.Join(c.Scratch, fmt.Sprintf("c05-%d", w))
		var s *wire.Srv
		var err error
		if k.Backend == "ldif" {
			cfg := ldifConfig(d, ldifText(usersSeed()), "")
			cfg.LDAPAdminDN, cfg.LDAPAllowLocalAnonymousBind = c05Admins[k.Admin].dn, k.Anon
			s, err = wire.Start(cfg)
		} else {
			p := d + ".db"
			writeFile(p, string(seed))
			cfg := dir.Config(p)
			cfg.LDAPAdminDN, cfg.LDAPAllowLocalAnonymousBind = c05Admins[k.Admin].dn, k.Anon
			s, err = wire.Start(cfg)
		}
		if err != nil {
			return fmt.Sprintf("server does not start with administrator %q: %v", c05Admins[k.Admin].dn, err)
		}
		defer s.Stop()
		obs := s.Dial()
		if r := obs.Bind("cn=a,ou=p,dc=x", "pwa"); r.Code != 0 {
			return fmt.Sprintf("observer bind: %d %s", r.Code, bad(r))
		}
		before, err := dir.ContentOf(obs, dir.Base)
		if err != nil {
			return err.Error()
		}
		if k.Backend != "ldif" && before != tree.Canon() {
			return "initial content differs: " + model.Diff(before, tree.Canon())
		}
		conn := s.Dial()
		id := "anon"
		for _, i := range k.Events {
			r := conn.Do(evs[i].op(), someControls[k.Ctl]...)
			if b := bad(r); b != "" {
				return evs[i].name + ": " + b
			}
			if evs[i].id != "" {
				id = evs[i].id
			}
		}
		o := writes[k.Write]
		want := tree.Clone()
		allowed := c05Admins[k.Admin].entry != "" && id == c05Admins[k.Admin].entry && k.Backend != "ldif"
		ctl := append([]wire.Control{}, someControls[k.Ctl]...)
		for i := range ctl {
			ctl[i].Critical = k.Crit
		}
		r := conn.Do(o.Node(), ctl...)
		if k.Crit && r.Code != 0 {
			allowed = false // may be refused because of the controls
		}
		if b := bad(r); b != "" {
			return o.String() + ": " + b
		}
		wantS := before
		if allowed {
			if !o.Apply(want) {
				return "internal: write not possible"
			}
			wantS = want.Canon()
			if r.Code != 0 {
				return fmt.Sprintf("the administrator (configured as %q) cannot %s: %d %s", c05Admins[k.Admin].dn, o, r.Code, r.Msg)
			}
		} else if r.Code == 0 {
			return fmt.Sprintf("%s succeeds for identity %s (administrator configured as %q, %s)", o, id, c05Admins[k.Admin].dn, k.Backend)
		}
		// The observer's own password may have been changed; its connection stays bound.
		after, err := dir.ContentOf(obs, dir.Base)
		if err != nil {
			return err.Error()
		}
		if after != wantS {
			return fmt.Sprintf("%s by %s (answer %d): content differs: %s", o, id, r.Code, model.Diff(after, wantS))
		}
		c.Outcome(fmt.Sprintf("%s %s allowed=%v code=%d", k.Backend, id, allowed, r.Code))
		return ""
	}
}

func init() {
	register(&run.Check{
		ID: "C05", Level: "model_checking",
		Rule:   "All sequences of bind events up to a length on one connection, followed by each kind of write request (four kinds after three and more events; with several sets of controls, proxied authorization among them, after up to one), for each configured administrator name and both backends; the answer and the content seen by another connection are compared with the rule.",
		Assume: []string{"an entry's identity is its name; the vocabulary of names and spellings is fixed"},
		Explore: func(c *run.Ctx) {
			p := filepath.Join(c.Scratch, "seed.db")
			seed, err := dir.Seed(p, dir.Base, usersSeed())
			if err != nil {
				c.Errorf("%v", err)
				return
			}
			judge := c05Judge(seed)
			evs, writes := c05Events(), c05Writes()
			depth, ldifDepth := 3, 2
			if c.Thorough {
				depth, ldifDepth = 4, 3
			}
			var cases []c05Case
			var rec func(b string, adm int, anon bool, pre []int, d int)
			rec = func(b string, adm int, anon bool, pre []int, d int) {
				c.States.Add(1)
				for wi := range writes {
					if len(pre) >= 3 && wi >= 4 {
						break // the longest histories get fewer kinds of writes
					}
					cases = append(cases, c05Case{b, adm, anon, append([]int{}, pre...), wi, 0, false})
					for ctl := 1; ctl < len(someControls) && len(pre) < 2; ctl++ {
						cases = append(cases, c05Case{b, adm, anon, append([]int{}, pre...), wi, ctl, false}, c05Case{b, adm, anon, append([]int{}, pre...), wi, ctl, true})
					}
				}
				if len(pre) == d {
					return
				}
				for i := range evs {
					rec(b, adm, anon, append(pre[:len(pre):len(pre)], i), d)
				}
			}
			for adm := range c05Admins {
				dd := depth
				if adm > 0 && c.Thorough {
					dd = 3
				} else if adm > 0 {
					dd = 2
				}
				rec("boltdb", adm, false, nil, dd)
			}
			rec("boltdb", 0, true, nil, ldifDepth)
			rec("boltdb", 3, true, nil, ldifDepth)
			for _, adm := range []int{0, 3} {
				rec("ldif", adm, false, nil, ldifDepth)
				rec("ldif", adm, true, nil, ldifDepth)
			}
			c.Par(len(cases), func(w, i int) {
				k := cases[i]
				c.Announce(w, k)
				c.Trans.Add(int64(len(k.Events) + 1))
				c.Traces.Add(1)
				if i%1009 == 7 {
					c.Sample(k)
				}
				if what := judge(c, w, k); what != "" {
					c.Violation(what, what, k)
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c05Case) string {
			seed, err := dir.Seed(filepath.Join(c.Scratch, "seed.db"), dir.Base, usersSeed())
			if err != nil {
				return err.Error()
			}
			return c05Judge(seed)(c, w, k)
		}),
	})
}
