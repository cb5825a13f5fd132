package main

import (
	"fmt"
	"path/filepath"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// Binds of C06. dn is the entry's canonical name, pw the password sent; kind "simple" binds can succeed.
type c06Bind struct {
	name string
	op   *ber.Node
	dn   string // canonical target, "" if it can never succeed
	pw   string
}

const (
	c06A = "cn=a,ou=p,dc=x"
	c06B = "cn=b,ou=p,dc=x"
)

func c06Binds() []c06Bind {
	s := func(name, sent, dn, pw string) c06Bind { return c06Bind{name, wire.BindOp(sent, pw), dn, pw} }
	v := func(ver int64, dn, pw string) *ber.Node {
		return ber.Cons(wire.TBind, ber.Int(ver), ber.Str(dn), ber.StrT(0x80, pw))
	}
	return []c06Bind{
		s("a", c06A, c06A, "pwa"),
		s("a with a's second password", c06A, c06A, "pw2"),
		s("b", c06B, c06B, "pwb"),
		s("admin", dir.AdminDN, dir.AdminDN, dir.AdminPW),
		s("a spelled differently", "CN=\\41 , ou=P,DC=x", c06A, "pwa"),
		s("a in capitals", "CN=A,OU=P,DC=X", c06A, "pwa"),
		s("a with b's password", c06A, "", "pwb"),
		s("a with a prefix of the password", c06A, "", "pw"),
		s("a with an extended password", c06A, "", "pwa "),
		s("a without password", c06A, "", ""),
		s("unknown name", "cn=zz,ou=p,dc=x", "", "pwa"),
		s("entry without password", "cn=nopw,dc=x", "", "x"),
		s("the base", "dc=x", "", "x"),
		s("name outside", "cn=a,ou=p,dc=y", "", "pwa"),
		s("broken name", "cn=a,,dc=x", "", "pwa"),
		s("anonymous", "", "", ""),
		s("no name but a password", "", "", "pwa"),
		{"sasl", wire.SASLBindOp(c06A, "PLAIN", "\x00a\x00pwa"), "", ""},
		{"sasl external", wire.SASLBindOp(dir.AdminDN, "EXTERNAL", ""), "", ""},
		{"version 2", v(2, c06A, "pwa"), "", ""},
		{"version 4", v(4, c06A, "pwa"), "", ""},
	}
}

// Events by the administrator on another connection.
func c06Admin() []dir.Op {
	return []dir.Op{
		modOp(c06A, ch(model.Replace, "userPassword", "pw2")),
		modOp(c06A, ch(model.Replace, "userPassword", "pwa")),
		delOp(c06A),
		addOp(c06A, "cn", "a", "userPassword", "pwa"),
		modOp(c06B, ch(model.Delete, "userPassword")),
		renOp(c06B, "cn=c", true),
	}
}

// An event is a bind on connection Conn (0/1), a reconnect of it (Bind -1), or an administrator action (Conn -1).
type c06Ev struct {
	Conn int `json:"c"`
	I    int `json:"i"`
}

type c06Case struct {
	Backend string  `json:"backend"`
	Anon    bool    `json:"anon,omitempty"` // local anonymous access is enabled
	Events  []c06Ev `json:"events"`
	Ctl     int     `json:"ctl,omitempty"` // controls of all binds
}

func c06Name(e c06Ev) string {
	if e.Conn < 0 {
		return "administrator: " + c06Admin()[e.I].String()
	}
	if e.I < 0 {
		return fmt.Sprintf("connection %d: reconnect", e.Conn)
	}
	return fmt.Sprintf("connection %d: bind %s", e.Conn, c06Binds()[e.I].name)
}

func c06Judge(seed []byte) func(c *run.Ctx, w int, k c06Case) string {
	binds, adm := c06Binds(), c06Admin()
	seedTree := dir.Tree(dir.Base, usersSeed())
	return func(c *run.Ctx, w int, k c06Case) string {
		p := filepath.Join(c.Scratch, fmt.Sprintf("c06-%d", w))
		var s *wire.Srv
		var err error
		if k.Backend == "boltdb" {
			writeFile(p+".db", string(seed))
			cfg := dir.Config(p + ".db")
			cfg.LDAPAllowLocalAnonymousBind = k.Anon
			s, err = wire.Start(cfg)
		} else {
			cfg := ldifConfig(p, ldifText(usersSeed()[:4])+"\n", ldifText(usersSeed()[4:]))
			cfg.LDAPAllowLocalAnonymousBind = k.Anon
			s, err = wire.Start(cfg)
		}
		if err != nil {
			return err.Error()
		}
		defer s.Stop()
		tree := seedTree.Clone()
		var ac *wire.Client
		conns := [2]*wire.Client{s.Dial(), s.Dial()}
		ids := [2]string{"", ""}
		for _, ev := range k.Events {
			switch {
			case ev.Conn < 0:
				if ac == nil {
					ac = s.Dial()
					if r := ac.Bind(dir.AdminDN, dir.AdminPW); r.Code != 0 {
						return fmt.Sprintf("administrator bind: %d %s", r.Code, bad(r))
					}
				}
				ok := adm[ev.I].Apply(tree)
				r := adm[ev.I].Do(ac)
				if (r.Code == 0) != ok {
					return fmt.Sprintf("%s: answer %d", adm[ev.I], r.Code)
				}
			case ev.I < 0:
				conns[ev.Conn].Close()
				conns[ev.Conn], ids[ev.Conn] = s.Dial(), ""
			default:
				b := binds[ev.I]
				want := false
				if b.dn != "" {
					if e := tree.Get(b.dn); e != nil {
						pw := e.Get("userPassword")
						want = len(pw) == 1 && pw[0] == b.pw
					}
				}
				if b.name == "anonymous" {
					want = k.Anon
				}
				r := conns[ev.Conn].Do(b.op.Clone(), someControls[k.Ctl]...)
				if x := bad(r); x != "" {
					return fmt.Sprintf("bind %s: %s", b.name, x)
				}
				if want != (r.Code == 0) {
					return fmt.Sprintf("bind %s on connection %d is answered with %d, expected success: %v", b.name, ev.Conn, r.Code, want)
				}
				ids[ev.Conn] = ""
				if want {
					ids[ev.Conn] = b.dn
				}
			}
		}
		// Which identity does each connection act with?
		out := ""
		for i, cn := range conns {
			if k.Backend == "boltdb" {
				for _, who := range []string{c06A, c06B} {
					e := tree.Get(who)
					if e == nil || len(e.Get("userPassword")) != 1 {
						continue
					}
					cur := e.Get("userPassword")[0]
					u := who
					r := cn.Do(wire.PwModOp(&u, &cur, &cur, false))
					if x := bad(r); x != "" {
						return fmt.Sprintf("password change of %s on connection %d: %s", who, i, x)
					}
					if want := ids[i] == who || ids[i] == dir.AdminDN; want != (r.Code == 0) {
						return fmt.Sprintf("connection %d, expected to act as %q, changes the password of %s with answer %d", i, ids[i], who, r.Code)
					}
				}
				probe := fmt.Sprintf("cn=probe%d,dc=x", i)
				target := probe
				if ids[i] != dir.AdminDN {
					target = "cn=adminx,dc=x"
				}
				last := "cn=renamed,dc=x"
				if ids[i] != dir.AdminDN {
					last = target
				}
				for _, o := range []dir.Op{addOp(probe, "cn", probe[3:9]), modOp(target, ch(model.Replace, "sn", "probe")), renOp(target, "cn=renamed", false), delOp(last)} {
					r := o.Do(cn)
					if x := bad(r); x != "" {
						return x
					}
					if want := ids[i] == dir.AdminDN; want != (r.Code == 0) {
						return fmt.Sprintf("connection %d, expected to act as %q: %s is answered with %d", i, ids[i], o, r.Code)
					}
				}
			}
			r := cn.Search(dir.Base, model.ScopeSub, wire.FPresent("objectClass"))
			if x := bad(r); x != "" {
				return x
			}
			if want := ids[i] != "" || k.Anon; want != (r.Code == 0 && len(r.Entries) > 0) {
				return fmt.Sprintf("connection %d, expected to act as %q, searches with answer %d and %d entries", i, ids[i], r.Code, len(r.Entries))
			}
			out += fmt.Sprintf("[%s]", ids[i])
		}
		c.Outcome(fmt.Sprint(k.Backend, " ", k.Anon, " identities ", out))
		return ""
	}
}

func init() {
	register(&run.Check{
		ID: "C06", Level: "model_checking",
		Rule:   "All interleaved sequences of binds, reconnects and account changes up to a length on two connections, with and without anonymous access, up to two binds with several sets of controls, and forty binds in a row followed by another; every bind answer is compared with the accounts at that moment, and at the end each connection's identity is observed through what it may do (password changes, add, search).",
		Assume: []string{"stored passwords are clear text here; other schemes are the subject of C08"},
		Explore: func(c *run.Ctx) {
			seed, err := dir.Seed(filepath.Join(c.Scratch, "seed.db"), dir.Base, usersSeed())
			if err != nil {
				c.Errorf("%v", err)
				return
			}
			judge := c06Judge(seed)
			nb := len(c06Binds())
			var one, two, adm []c06Ev
			for i := -1; i < nb; i++ {
				one = append(one, c06Ev{0, i})
				two = append(two, c06Ev{1, i})
			}
			for i := range c06Admin() {
				adm = append(adm, c06Ev{-1, i})
			}
			var cases []c06Case
			add := func(b string, sets ...[]c06Ev) {
				var rec func(pre []c06Ev, rest [][]c06Ev)
				rec = func(pre []c06Ev, rest [][]c06Ev) {
					if n := len(pre); b == "ldif" && n > 0 && pre[n-1].I == 4 {
						return // LDIF-backed servers compare names as text
					}
					if len(rest) == 0 {
						for _, anon := range []bool{false, true} {
							cases = append(cases, c06Case{b, anon, append([]c06Ev{}, pre...), 0})
							for ctl := 1; ctl < len(someControls) && len(sets) < 3 && len(sets[0]) == len(one); ctl++ {
								cases = append(cases, c06Case{b, anon, append([]c06Ev{}, pre...), ctl})
							}
						}
						return
					}
					for _, e := range rest[0] {
						rec(append(pre[:len(pre):len(pre)], e), rest[1:])
					}
				}
				rec(nil, sets)
			}
			all := append(append(append([]c06Ev{}, one...), two...), adm...)
			add("boltdb", all)
			add("boltdb", one)
			add("boltdb", one, one)
			add("boltdb", all, all)
			add("boltdb", one, one, one)
			add("boltdb", one, adm, one)
			add("boltdb", adm, adm, one)
			add("ldif", one)
			add("ldif", one, one)
			add("ldif", one, two)
			add("ldif", one, two, one)
			if c.Thorough {
				add("boltdb", all, all, all)
				add("boltdb", one, adm, one, one)
				add("boltdb", one, one, one, one)
				add("boltdb", adm, adm, one, one)
				add("boltdb", adm, adm, adm, one)
				add("ldif", one, one, one)
				add("ldif", two, one, one, two)
			}
			// Long runs: every bind many times, then each that succeeds, on the same, another and a new connection.
			for _, b := range []string{"boltdb", "ldif"} {
				for i := 0; i < nb; i++ {
					for j := 0; j < 4; j++ {
						if b == "ldif" && i == 4 {
							continue
						}
						for _, then := range [][]c06Ev{{{0, j}}, {{1, j}}, {{0, -1}, {0, j}}} {
							var l []c06Ev
							for n := 0; n < 40; n++ {
								l = append(l, c06Ev{0, i})
							}
							cases = append(cases, c06Case{b, i%2 == 0, append(l, then...), 0})
						}
					}
				}
			}
			c.Par(len(cases), func(w, i int) {
				k := cases[i]
				c.Announce(w, k)
				c.States.Add(1)
				c.Trans.Add(int64(len(k.Events)))
				c.Traces.Add(1)
				if i%997 == 5 {
					c.Sample(c06Names(k))
				}
				if what := judge(c, w, k); what != "" {
					what = fmt.Sprintf("%s anonymous=%v %v: %s", k.Backend, k.Anon, c06Names(k), what)
					c.Violation(what, what, k)
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c06Case) string {
			seed, err := dir.Seed(filepath.Join(c.Scratch, "seed.db"), dir.Base, usersSeed())
			if err != nil {
				return err.Error()
			}
			return c06Judge(seed)(c, w, k)
		}),
	})
}

func c06Names(k c06Case) []string {
	var r []string
	for _, e := range k.Events {
		r = append(r, c06Name(e))
	}
	return r
}
