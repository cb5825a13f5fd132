package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// c09Named has its password in its name, so that the change may be refused.
const c09Named = "userPassword=pwn,dc=x"

func c09Seed() []dir.SeedEntry {
	return append(dir.Standard(),
		dir.E("ou=p,dc=x", "objectClass", "organizationalUnit", "ou", "p"),
		dir.E(c06A, "objectClass", "person", "cn", "a", "sn", "A", "userPassword", "pwa", "description", "1", "description", "2"),
		dir.E(c06B, "objectClass", "person", "cn", "b", "sn", "B", "userpassword", "{SSHA}"+ssha("pwb", "salt")),
		dir.E("cn=nopw,dc=x", "objectClass", "person", "cn", "nopw"),
		dir.E("cn=k,"+c06A, "objectClass", "person", "cn", "k", "USERPASSWORD", "pwk"),
		dir.E("cn=k,cn=admin,dc=x", "objectClass", "person", "cn", "k", "userPassword", "pwm"),
		dir.E("x"+c06A, "objectClass", "person", "xcn", "a", "userPassword", "pwx"),
		dir.E(c09Named, "objectClass", "account", "userPassword", "pwn"),
	)
}

// c09PW are the passwords of the entries that can have one, by canonical name.
func c09PW() map[string]string {
	return map[string]string{dir.AdminDN: dir.AdminPW, c06A: "pwa", c06B: "pwb", "cn=nopw,dc=x": "", "dc=x": "", "ou=p,dc=x": "",
		"cn=k," + c06A: "pwk", "cn=k,cn=admin,dc=x": "pwm", "x" + c06A: "pwx", c09Named: "pwn"}
}

// Sessions; who is the resulting identity.
var c09Sess = []struct {
	name, who string
	ops       []*ber.Node
}{
	{"anonymous", "", nil},
	{"a", c06A, []*ber.Node{wire.BindOp(c06A, "pwa")}},
	{"admin", dir.AdminDN, []*ber.Node{wire.BindOp(dir.AdminDN, dir.AdminPW)}},
	{"b", c06B, []*ber.Node{wire.BindOp("CN=B, OU=\\70,DC=x", "pwb")}},
	{"below a", "cn=k," + c06A, []*ber.Node{wire.BindOp("cn=k,"+c06A, "pwk")}},
	{"below admin", "cn=k,cn=admin,dc=x", []*ber.Node{wire.BindOp("cn=k,cn=admin,dc=x", "pwm")}},
	{"xcn=a", "x" + c06A, []*ber.Node{wire.BindOp("x"+c06A, "pwx")}},
	{"a after failed bind", "", []*ber.Node{wire.BindOp(c06A, "pwa"), wire.BindOp(c06A, "x")}},
	{"admin after failed bind", "", []*ber.Node{wire.BindOp(dir.AdminDN, dir.AdminPW), wire.BindOp(c06A, "x")}},
	{"a after admin", c06A, []*ber.Node{wire.BindOp(dir.AdminDN, dir.AdminPW), wire.BindOp(c06A, "pwa")}},
}

func sp(s string) *string { return &s }

// Targets: what is sent and the canonical name ("" none, "?" not usable).
var c09Users = []struct {
	sent *string
	dn   string
}{
	{nil, ""},
	{sp(c06A), c06A},
	{sp(c06B), c06B},
	{sp(dir.AdminDN), dir.AdminDN},
	{sp("CN=\\41 , ou=P,DC=x"), c06A},
	{sp("cn=nopw,dc=x"), "cn=nopw,dc=x"},
	{sp("dc=x"), "dc=x"},
	{sp("cn=missing,dc=x"), "?"},
	{sp("cn=a,,dc=x"), "?"},
	{sp("a"), "?"},
	{sp("cn=a,ou=p,dc=y"), "?"},
	{sp("cn=a,dc=x"), "?"},
	{sp("ou=p,dc=x"), "ou=p,dc=x"},
	{sp("x" + c06A), "x" + c06A},
	{sp("cn=k," + c06A), "cn=k," + c06A},
	{sp("cn=k,cn=admin,dc=x"), "cn=k,cn=admin,dc=x"},
	{sp(c06A + ",dc=x"), "?"},
	{sp(c09Named), c09Named},
}

// Old passwords: a symbol. right is the target's current one, self the sender's.
var c09Old = []string{"", "right", "wrong", "right+x", "self", "upper", "prefix"}

var c09New = []*string{sp("new"), nil, sp("pwa"), sp("{SSHA}x"), sp("\xc3\xbc \x00\xff"), sp(dir.AdminPW), sp(strings.Repeat("x", 300)), sp("{ARGON2}")}

type c09Step struct {
	Sess int `json:"s"`
	User int `json:"u"`
	Old  int `json:"o"`
	New  int `json:"n"`
}

type c09Case struct {
	Steps []c09Step `json:"steps,omitempty"`
	Raw   []byte    `json:"raw,omitempty"` // request value sent by session Sess
	Sess  int       `json:"sess,omitempty"`
}

func (k c09Case) String() string {
	if k.Raw != nil {
		return fmt.Sprintf("%s sends request value % x", c09Sess[k.Sess].name, k.Raw)
	}
	var l []string
	for _, s := range k.Steps {
		u, n := "(absent)", "(absent)"
		if p := c09Users[s.User].sent; p != nil {
			u = *p
		}
		if p := c09New[s.New]; p != nil {
			n = *p
		}
		if len(n) > 40 {
			n = n[:40] + "..."
		}
		l = append(l, fmt.Sprintf("%s changes password of %s, old %q, new %q", c09Sess[s.Sess].name, u, c09Old[s.Old], n))
	}
	return strings.Join(l, "; ")
}

// c09Decode is a strict reading of a request value. ok is false if it is not such a value; lenient if a decoder might accept it.
func c09Decode(b []byte) (user, old, nw *string, ok, lenient bool) {
	if len(b) == 0 {
		return nil, nil, nil, true, true
	}
	if len(b) > 1 && b[0] == 0x30 && b[1] == 0x80 { // indefinite length
		return nil, nil, nil, false, true
	}
	n, used, need, err := ber.Decode(b)
	if err != nil || need || n == nil {
		return nil, nil, nil, false, false
	}
	if n.Tag != 0x30 {
		return nil, nil, nil, false, false
	}
	if used != len(b) {
		return nil, nil, nil, false, true
	}
	last := -1
	for _, k := range n.Kids {
		if k.Tag&0x1f > 2 || k.Tag&0xc0 != 0x80 {
			return nil, nil, nil, false, false
		}
		if k.Tag&0x20 != 0 || int(k.Tag&0x1f) <= last {
			return nil, nil, nil, false, true
		}
		last = int(k.Tag & 0x1f)
		v := string(k.Val)
		if v == "" {
			lenient = true
		}
		switch last {
		case 0:
			user = &v
		case 1:
			old = &v
		case 2:
			nw = &v
		}
	}
	return user, old, nw, true, lenient
}

type c09State struct {
	d     *dir.Dir
	tree  *model.Tree // userPassword values of changed entries are "{hash}"
	pw    map[string]string
	cands map[string]bool
	conns map[int]*wire.Client
}

func (s *c09State) content() (string, error) {
	r := s.d.Adm.Search(dir.Base, model.ScopeSub, wire.FPresent("objectClass"))
	if r.Code != 0 {
		return "", fmt.Errorf("search: %d %s", r.Code, bad(r))
	}
	return model.CanonWire(r.Entries), nil
}

// probe compares which passwords authenticate.
func (s *c09State) probe() string {
	c := s.d.Srv.Dial()
	defer c.Close()
	for dn, pw := range s.pw {
		for cand := range s.cands {
			r := c.Bind(dn, cand)
			if r.Code < 0 {
				return "bind: " + bad(r)
			}
			if want := cand == pw && pw != ""; (r.Code == 0) != want {
				return fmt.Sprintf("afterwards password %q of %s accepted: %v, expected: %v", cand, dn, r.Code == 0, want)
			}
		}
	}
	return ""
}

// step sends one request and judges it. must: acceptance is required if allowed.
func (s *c09State) step(cn *wire.Client, who string, op *ber.Node, target string, old, nw *string, decodable, must bool) string {
	before, err := s.content()
	if err != nil {
		return err.Error()
	}
	if target == "" {
		target = who
	}
	cur, exists := s.pw[target]
	allowed := decodable && who != "" && exists && (who == dir.AdminDN || who == target) && (old == nil || *old == "" || (*old == cur))
	r := cn.Do(op)
	if r.Code < 0 {
		return "no proper answer: " + bad(r)
	}
	if r.Code == 0 && !allowed {
		return "accepted although not allowed"
	}
	if r.Code != 0 && allowed && must && target != c09Named {
		return fmt.Sprintf("refused with %d although allowed", r.Code)
	}
	if r.Code != 0 {
		after, err := s.content()
		if err != nil {
			return err.Error()
		}
		if after != before {
			return "refused but the directory changed: " + model.Diff(after, before)
		}
		return s.probe()
	}
	newpw := ""
	if nw != nil {
		newpw = *nw
	}
	if newpw == "" {
		if !r.HasValue {
			return "no generated password in the answer"
		}
		n, _, _, err := ber.Decode(r.Value)
		if err != nil || n == nil || n.Tag != 0x30 || len(n.Kids) != 1 || n.Kids[0].Tag != 0x80 || len(n.Kids[0].Val) == 0 {
			return fmt.Sprintf("the answer value % x holds no generated password", r.Value)
		}
		newpw = string(n.Kids[0].Val)
	} else if r.HasValue {
		return fmt.Sprintf("unexpected answer value % x", r.Value)
	}
	s.pw[target] = newpw
	s.cands[newpw] = true
	s.cands[newpw+"x"] = true
	// stored value
	e := s.d.Adm.Search(target, model.ScopeBase, wire.FPresent("objectClass"))
	var stored string
	for _, x := range e.Entries {
		for _, a := range x.Attrs {
			if strings.EqualFold(a.Name, "userPassword") {
				if stored != "" || len(a.Values) != 1 {
					return fmt.Sprintf("several stored passwords: %v", x.Attrs)
				}
				stored = a.Values[0]
			}
		}
	}
	if stored == "" || (strings.Contains(stored, newpw) && len(newpw) > 3 && !strings.HasPrefix(newpw, "{ARGON2")) || stored == newpw {
		return fmt.Sprintf("stored value %q is not a proper hash of %q", stored, newpw)
	}
	s.cands[stored] = true
	if !s.tree.Modify(target, []model.Change{{Op: model.Replace, Name: "userPassword", Vals: []string{stored}}}) {
		return "model: no entry " + target
	}
	after, err := s.content()
	if err != nil {
		return err.Error()
	}
	if after != s.tree.Canon() {
		return "other differences in the directory: " + model.Diff(after, s.tree.Canon())
	}
	return s.probe()
}

func c09Judge(seed []byte) func(c *run.Ctx, w int, k c09Case) string {
	return func(c *run.Ctx, w int, k c09Case) string {
		d, err := dir.Open(filepath.Join(c.Scratch, fmt.Sprintf("c09-%d.db", w)), seed)
		if err != nil {
			return err.Error()
		}
		defer d.Close()
		s := &c09State{d: d, tree: dir.Tree(dir.Base, c09Seed()), pw: c09PW(), conns: map[int]*wire.Client{}, cands: map[string]bool{}}
		for _, x := range []string{"", "pwa", "pwb", dir.AdminPW, "wrong", "PWA", "pw", "pwk", "pwm", "pwx", "pwn"} {
			s.cands[x] = true
		}
		sess := func(i int) (*wire.Client, string) {
			if s.conns[i] == nil {
				s.conns[i] = d.Srv.Dial()
				for _, op := range c09Sess[i].ops {
					if r := s.conns[i].Do(op.Clone()); r.Code < 0 {
						return nil, "session: " + bad(r)
					}
				}
			}
			return s.conns[i], ""
		}
		if k.Raw == nil {
			for _, st := range k.Steps { // sessions are there before any change
				if _, what := sess(st.Sess); what != "" {
					return what
				}
			}
			for _, st := range k.Steps {
				cn, _ := sess(st.Sess)
				who := c09Sess[st.Sess].who
				u := c09Users[st.User]
				target := u.dn
				if target == "" {
					target = who
				}
				var old *string
				switch c09Old[st.Old] {
				case "right":
					old = sp(s.pw[target])
				case "wrong":
					old = sp("wrong")
				case "right+x":
					old = sp(s.pw[target] + "x")
				case "self":
					old = sp(s.pw[who])
				case "upper":
					old = sp(strings.ToUpper(s.pw[target]))
				case "prefix":
					if p := s.pw[target]; p != "" {
						old = sp(p[:len(p)-1])
					}
				}
				if old != nil && *old == "" { // an empty old password is not part of the vocabulary
					old = sp("none")
				}
				if n := c09New[st.New]; n != nil {
					s.cands[*n] = true
				}
				what := s.step(cn, who, wire.PwModOp(u.sent, old, c09New[st.New], st.Old%2 == 0), u.dn, old, c09New[st.New], true, true)
				if what != "" {
					return what
				}
			}
			return ""
		}
		cn, what := sess(k.Sess)
		if what != "" {
			return what
		}
		user, old, nw, ok, lenient := c09Decode(k.Raw)
		op := ber.Cons(wire.TExt, ber.StrT(0x80, wire.PwModOID), ber.Prim(0x81, k.Raw))
		if !ok && lenient {
			if r := cn.Do(op); r.Code < 0 {
				return "no proper answer: " + bad(r)
			}
			return ""
		}
		target := ""
		if user != nil && *user != "" {
			target = "?"
			if dn, err := model.ParseDN(*user); err == nil {
				for x := range s.pw {
					if xd, _ := model.ParseDN(x); xd.Key() == dn.Key() {
						target = x
					}
				}
			}
		}
		return s.step(cn, c09Sess[k.Sess].who, op, target, old, nw, ok, !lenient)
	}
}

func init() {
	register(&run.Check{
		ID: "C09", Level: "exploration",
		Rule:   "All single password-change requests over sender x target spelling x old password x new password, all pairs of requests over a smaller vocabulary, sixteen in a row, and every truncation and single-byte change of request values; after each request every known password is tried on every entry and the complete content compared. Non-trivial are the cases with a change that has to be accepted.",
		Assume: []string{"empty strings for old password and name mean absent, as the request format suggests"},
		Explore: func(c *run.Ctx) {
			seed, err := dir.Seed(filepath.Join(c.Scratch, "seed.db"), dir.Base, c09Seed())
			if err != nil {
				c.Errorf("%v", err)
				return
			}
			judge := c09Judge(seed)
			var cases []c09Case
			var small []c09Step
			for s := range c09Sess {
				for u := range c09Users {
					for o := range c09Old {
						for n := range c09New {
							st := c09Step{s, u, o, n}
							cases = append(cases, c09Case{Steps: []c09Step{st}})
							lu, lo, ln, ls := 4, 4, 3, 4
							if !c.Thorough {
								lu, lo, ln, ls = 4, 3, 2, 3
							}
							if s < ls && u < lu && o < lo && n < ln {
								small = append(small, st)
							}
						}
					}
				}
			}
			c.Extra("single_requests", len(cases))
			for _, a := range small {
				for _, b := range small {
					cases = append(cases, c09Case{Steps: []c09Step{a, b}})
				}
			}
			// many changes in a row
			for s := 0; s < 3; s++ {
				for o := 0; o < 2; o++ {
					var k c09Case
					for i := 0; i < 16; i++ {
						k.Steps = append(k.Steps, c09Step{s, 0, o, i % 3})
					}
					cases = append(cases, k)
				}
			}
			// request values
			n0 := len(cases)
			seen := map[string]bool{}
			raw := func(b []byte) {
				if b == nil {
					b = []byte{}
				}
				if len(b) == 0 || seen[string(b)] {
					return
				}
				seen[string(b)] = true
				for _, s := range []int{0, 1, 2} {
					cases = append(cases, c09Case{Raw: append([]byte{}, b...), Sess: s})
				}
			}
			for _, v := range [][3]*string{{sp(c06A), sp("pwa"), sp("new")}, {nil, nil, sp("new")}, {nil, sp("pwa"), nil}, {sp(c06A), nil, nil}} {
				b := wire.PwModOp(v[0], v[1], v[2], true).Kids[1].Val
				raw(b)
				for i := range b {
					raw(b[:i])
					for _, x := range []byte{0x00, 0x04, 0x30, 0x31, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0xa0, 0xa2, 0xff, b[i] + 1, b[i] - 1} {
						m := append([]byte{}, b...)
						m[i] = x
						raw(m)
						if c.Thorough && i < 8 {
							for j := i + 1; j < len(b) && j < 10; j++ {
								for _, y := range []byte{0x00, 0x80, 0x81, 0x84, 0xff, b[j] + 1, b[j] - 1} {
									m2 := append([]byte{}, m...)
									m2[j] = y
									raw(m2)
								}
							}
						}
					}
					raw(append(append([]byte{}, b[:i]...), b[i+1:]...))
				}
				raw(append(append([]byte{}, b...), 0))
				raw(append(append([]byte{}, b...), b...))
			}
			raw([]byte{0})
			raw([]byte{0x30})
			raw([]byte{0x30, 0x80})
			raw([]byte{0x30, 0x80, 0, 0})
			raw([]byte{0x05, 0})
			raw(ber.Seq(ber.Str("a")).Bytes())
			raw(ber.Seq(ber.StrT(0x83, "a")).Bytes())
			raw(ber.Seq(ber.StrT(0x82, "n"), ber.StrT(0x82, "n"), ber.StrT(0x82, "n"), ber.StrT(0x82, "n")).Bytes())
			c.Extra("request_values", len(cases)-n0)
			c.Par(len(cases), func(w, i int) {
				k := cases[i]
				c.Announce(w, k)
				c.Evals.Add(1)
				if i%1499 == 7 {
					c.Sample(k.String())
				}
				for _, st := range k.Steps {
					if who := c09Sess[st.Sess].who; who != "" && st.Old < 2 && (who == c09Users[st.User].dn || who == dir.AdminDN || c09Users[st.User].dn == "") {
						c.Nontrivial.Add(1)
						break
					}
				}
				if what := judge(c, w, k); what != "" {
					c.Violation(k.String()+": "+what, k.String()+": "+what, k)
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c09Case) string {
			seed, err := dir.Seed(filepath.Join(c.Scratch, "seed.db"), dir.Base, c09Seed())
			if err != nil {
				return err.Error()
			}
			return c09Judge(seed)(c, w, k)
		}),
	})
}
