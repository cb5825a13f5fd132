package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/libregraph/idm/pkg/ldapdn"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

var c18Alphabet = []string{",", "+", "\"", "\\", "<", ">", ";", "=", "#", " ", "a", "A", "1", "\xc3\xbc", "\xc3\x9c", "\x00", "\xff", "\n", "~", "/", "*", "("}

// c18Values are all values up to a length.
func c18Values(n int) []string {
	l := []string{}
	prev := []string{""}
	for ; n > 0; n-- {
		var next []string
		for _, p := range prev {
			for _, s := range c18Alphabet {
				next = append(next, p+s)
			}
		}
		l = append(l, next...)
		prev = next
	}
	return l
}

const c18Special = ",+\"\\<>;"

// Spellings of a value, all with the same meaning.
var c18Spell = []func(v string) string{
	func(v string) string { // backslash and character
		var b strings.Builder
		for i := 0; i < len(v); i++ {
			c := v[i]
			if strings.IndexByte(c18Special, c) >= 0 || c == ' ' && (i == 0 || i == len(v)-1) || c == '#' && i == 0 || c == '=' && i == 0 {
				b.WriteByte('\\')
			}
			if c == 0 || c == 0xff { // names are UTF-8
				fmt.Fprintf(&b, "\\%02x", c)
				continue
			}
			b.WriteByte(c)
		}
		return b.String()
	},
	func(v string) string { // every byte in hex
		var b strings.Builder
		for i := 0; i < len(v); i++ {
			fmt.Fprintf(&b, "\\%02X", v[i])
		}
		return b.String()
	},
	func(v string) string { // specials in lower-case hex, letters in capitals
		var b strings.Builder
		for i := 0; i < len(v); i++ {
			c := v[i]
			switch {
			case strings.IndexByte(c18Special+" #=\x00\n", c) >= 0 || c >= 0x80:
				fmt.Fprintf(&b, "\\%02x", c)
			case c >= 'a' && c <= 'z':
				b.WriteByte(c - 32)
			default:
				b.WriteByte(c)
			}
		}
		return b.String()
	},
	func(v string) string { // other letter case of everything, spaces around
		s := strings.ToUpper(v)
		if s == v {
			s = strings.ToLower(v)
		}
		if !utf8.ValidString(v) {
			s = v
		}
		return " " + c18Hex(s) + " "
	},
}

func c18Hex(v string) string {
	var b strings.Builder
	for i := 0; i < len(v); i++ {
		fmt.Fprintf(&b, "\\%02x", v[i])
	}
	return b.String()
}

// Name shapes; v is the spelled value.
var c18Shapes = []func(v string, sp int) string{
	func(v string, sp int) string { return []string{"cn=", "CN=", "cn =", "Cn = "}[sp] + v + ",dc=x" },
	func(v string, sp int) string {
		return "cn=b," + []string{"ou=", "OU=", " ou=", "ou ="}[sp] + v + ",DC=x"
	},
	func(v string, sp int) string {
		return []string{"cn=b+sn=", "CN=B+SN=", "cn=b + sn=", "cn = B+ sn ="}[sp] + v + ",dc=x"
	},
	func(v string, sp int) string { return []string{"sn=", "SN=", "sn =", " sn= "}[sp] + v + "+cn=b,dc=x" },
	// many components
	func(v string, sp int) string {
		n := "cn=" + v
		for i := 0; i < 60; i++ {
			n += []string{",ou=lu", ",OU=LU", ", ou =Lu", " ,Ou= \\6cu"}[sp] + fmt.Sprint(i)
		}
		return n + ",dc=x"
	},
	// many parts of a component
	func(v string, sp int) string {
		return []string{"cn=b+uid=c+mail=d+title=e+l=f+sn=", "CN=B+UID=C+MAIL=D+TITLE=E+L=F+SN=", "cn=b + uid=c + mail=d + title=e + l=f + sn=", "cn = \\62+uid=\\63+mail=\\64+title=\\65+l=\\66+sn="}[sp] + v + ",dc=x"
	},
}

// c18Long are long values.
func c18Long() (l []string) {
	for _, n := range []int{31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 5000} {
		l = append(l, strings.Repeat("a", n), strings.Repeat("b", n-1)+",", " "+strings.Repeat("c", n), strings.Repeat("ü", n), strings.Repeat("Aa", n/2)+" ", "#"+strings.Repeat("=", n), strings.Repeat("d", n)+"1", strings.Repeat("d", n)+"2", strings.Repeat("+", n))
	}
	return l
}

type c18Case struct {
	Value string `json:"-"`
	Hex   []byte `json:"value"`
	Shape int    `json:"shape"`
	Wire  bool   `json:"wire"`
	Other []byte `json:"other,omitempty"` // a second value that collided
	OSh   int    `json:"oshape,omitempty"`
}

func (k c18Case) String() string {
	return fmt.Sprintf("value %q in name %s", k.Value, c18Shapes[k.Shape](c18Spell[0](k.Value), 0))
}

func c18Key(v string, shape int) (string, model.DN) {
	d, err := model.ParseDN(c18Shapes[shape](c18Hex(v), 0))
	if err != nil {
		panic(err)
	}
	return d.Key(), d
}

// c18Func checks the normal form of one name; it returns the normal form.
func c18Func(v string, shape int) (norm, what string) {
	key, _ := c18Key(v, shape)
	for sp, f := range c18Spell {
		s := c18Shapes[shape](f(v), sp)
		n, err := ldapdn.ParseNormalize(s)
		if err != nil {
			return "", fmt.Sprintf("%q does not parse: %v", s, err)
		}
		if sp == 0 {
			norm = n
		}
		if n != norm {
			return "", fmt.Sprintf("normal forms %q and %q of two spellings differ (%q)", norm, n, s)
		}
	}
	n2, err := ldapdn.ParseNormalize(norm)
	if err != nil || n2 != norm {
		return "", fmt.Sprintf("the normal form %q has the normal form %q, error %v", norm, n2, err)
	}
	d, err := model.ParseDN(norm)
	if err != nil || d.Key() != key {
		return "", fmt.Sprintf("the normal form %q means %v, expected %s (%v)", norm, d, key, err)
	}
	return norm, ""
}

type c18Worker struct{ d *dir.Dir }

func c18Open(c *run.Ctx, w int) (*c18Worker, error) {
	p := filepath.Join(c.Scratch, fmt.Sprintf("c18-%d.db", w))
	if _, err := dir.Seed(p, dir.Base, dir.Standard()); err != nil {
		return nil, err
	}
	d, err := dir.Open(p, nil)
	if err != nil {
		return nil, err
	}
	return &c18Worker{d}, nil
}

// one searches and expects exactly the given names.
func (x *c18Worker) one(base string, scope int, want ...string) string {
	r := x.d.Adm.Search(base, scope, wire.FPresent("objectClass"), "objectClass")
	if b := bad(r); b != "" {
		return b
	}
	got := map[string]int{}
	for _, e := range r.Entries {
		d, err := model.ParseDN(e.DN)
		if err != nil {
			return fmt.Sprintf("returned name %q does not parse", e.DN)
		}
		got[d.Key()]++
	}
	ok := r.Code == 0 && len(r.Entries) == len(want)
	for _, w := range want {
		ok = ok && got[w] == 1
	}
	if !ok {
		return fmt.Sprintf("search of base %q scope %d: code %d, entries %v, expected %v", base, scope, r.Code, got, want)
	}
	return ""
}

// wire runs all operations on a one-component name under all spellings.
func (x *c18Worker) wire(c *run.Ctx, v string) string {
	a := x.d.Adm
	name := func(sp int) string { return c18Shapes[0](c18Spell[sp](v), sp) }
	key, dn := c18Key(v, 0)
	childKey := model.DN{model.RDN{{Type: "cn", Value: "k"}}, dn[0], dn[1]}.Key()
	do := func(ok bool, o dir.Op) string {
		r := o.Do(a)
		if b := bad(r); b != "" {
			return o.String() + ": " + b
		}
		if (r.Code == 0) != ok {
			return fmt.Sprintf("%s: answer %d, expected success: %v", o, r.Code, ok)
		}
		return ""
	}
	for sp := range c18Spell {
		steps := func(spj int) string {
			j := name(spj)
			for _, f := range []func() string{
				func() string { return do(false, addOp(j, "cn", "dup")) },
				func() string { return x.one(j, model.ScopeBase, key) },
				func() string { return do(true, modOp(j, ch(model.Replace, "description", "d"))) },
				func() string { return do(true, pwOp(j, "new")) },
				func() string {
					b := x.d.Srv.Dial()
					defer b.Close()
					if r := b.Bind(name((spj+1)%len(c18Spell)), "new"); r.Code != 0 {
						return fmt.Sprintf("bind: %d %s", r.Code, bad(r))
					}
					if r := b.Search(j, model.ScopeBase, wire.FPresent("objectClass")); r.Code != 0 || len(r.Entries) != 1 {
						return fmt.Sprintf("search after bind: %d", r.Code)
					}
					u, n := j, "new" // the user's own password under another spelling of its name
					if r := b.Do(wire.PwModOp(&u, &n, &n, false)); r.Code != 0 {
						return fmt.Sprintf("own password change: %d %s", r.Code, r.Msg)
					}
					return ""
				},
				func() string { return do(true, addOp("cn=k,"+j, "cn", "k")) },
				func() string { return x.one(name((spj+2)%len(c18Spell)), model.ScopeOne, childKey) },
				func() string { return x.one(j, model.ScopeSub, key, childKey) },
				func() string { return do(false, delOp(j)) },
				func() string { return do(true, delOp("cn=k, "+name((spj+3)%len(c18Spell)))) },
				func() string { return do(true, renOp(j, "cn=zz", true)) },
				func() string { return x.one(j, model.ScopeBase) },
				func() string {
					return do(true, renOp("cn=zz,dc=x", "cn="+c18Spell[spj](v), true))
				},
				func() string {
					r := a.Search(j, model.ScopeBase, wire.FPresent("cn"), "cn")
					if r.Code != 0 || len(r.Entries) != 1 || len(r.Entries[0].Attrs) != 1 || len(r.Entries[0].Attrs[0].Values) != 1 || !model.FoldEq(r.Entries[0].Attrs[0].Values[0], v) {
						return fmt.Sprintf("after the rename the entry is %v (code %d)", r.Entries, r.Code)
					}
					return ""
				},
				func() string { return do(true, modOp(name((spj+1)%len(c18Spell)), ch(model.Replace, "sn", "d"))) },
			} {
				if what := f(); what != "" {
					return what
				}
			}
			return ""
		}
		if what := do(true, addOp(name(sp), "cn", v)); what != "" {
			return what
		}
		for spj := range c18Spell {
			if what := steps(spj); what != "" {
				return fmt.Sprintf("added as %q, used as %q: %s", name(sp), name(spj), what)
			}
		}
		if what := do(true, delOp(name((sp+1)%len(c18Spell)))); what != "" {
			return what
		}
		if what := do(false, delOp(name(sp))); what != "" {
			return what
		}
	}
	c.Nontrivial.Add(1)
	return ""
}

// c18Siblings stores all values as siblings and looks each up.
func c18Siblings(c *run.Ctx, vals []string) string {
	x, err := c18Open(c, 99)
	if err != nil {
		return err.Error()
	}
	defer x.d.Close()
	have := map[string]string{}
	for _, v := range vals {
		key, _ := c18Key(v, 0)
		_, dup := have[key]
		r := addOp(c18Shapes[0](c18Spell[0](v), 0), "cn", v).Do(x.d.Adm)
		if r.Code < 0 || (r.Code == 0) == dup {
			return fmt.Sprintf("adding sibling %q: answer %d, the name exists: %v (%q)", v, r.Code, dup, have[key])
		}
		if !dup {
			have[key] = v
		}
	}
	for key, v := range have {
		for sp := range c18Spell {
			if what := x.one(c18Shapes[0](c18Spell[sp](v), sp), model.ScopeBase, key); what != "" {
				return what
			}
		}
		c.Nontrivial.Add(1)
	}
	r := x.d.Adm.Search(dir.Base, model.ScopeOne, wire.FPresent("objectClass"), "objectClass")
	if r.Code != 0 || len(r.Entries) != len(have)+1 {
		return fmt.Sprintf("one-level search finds %d entries instead of %d", len(r.Entries), len(have)+1)
	}
	// delete every other one, the rest has to stay
	i := 0
	for key, v := range have {
		if i++; i%2 == 0 {
			if r := x.d.Adm.Do(wire.DelOp(c18Shapes[0](c18Spell[1](v), 1))); r.Code != 0 {
				return fmt.Sprintf("deleting %q: %d", v, r.Code)
			}
			delete(have, key)
		}
	}
	for key, v := range have {
		if what := x.one(c18Shapes[0](c18Spell[2](v), 2), model.ScopeBase, key); what != "" {
			return what
		}
	}
	return ""
}

func init() {
	register(&run.Check{
		ID: "C18", Level: "exploration",
		Rule:   "All values up to a length over an alphabet with every special character, and long ones, put into each position of a name, also of one with sixty components and one with six parts: all spellings must have one normal form that is its own normal form and parses back, and different names different ones. Through LDAP all values up to two characters under all pairs of spellings are added, searched, bound, modified, renamed, deleted, used as parent, and all stored side by side. Non-trivial are the names that went through LDAP.",
		Assume: []string{"spellings with an unescaped leading '#' (BER values) and the order of the parts of a multi-valued component are not considered"},
		Explore: func(c *run.Ctx) {
			vals := c18Values(3)
			if c.Thorough {
				vals = c18Values(4)
			}
			vals = append(vals, c18Long()...)
			norms := make([][]string, len(c18Shapes))
			for sh := range c18Shapes {
				norms[sh] = make([]string, len(vals))
			}
			c.Par(len(vals), func(w, i int) {
				for sh := range c18Shapes {
					k := c18Case{Value: vals[i], Hex: []byte(vals[i]), Shape: sh}
					c.Evals.Add(1)
					n, what := c18Func(vals[i], sh)
					norms[sh][i] = n
					if what != "" {
						c.Violation(k.String()+": "+what, k.String()+": "+what, k)
					}
				}
			})
			if c.Enough() {
				return
			}
			seen := map[string][2]int{}
			for sh := range c18Shapes {
				for i, n := range norms[sh] {
					o, dup := seen[n]
					if !dup {
						seen[n] = [2]int{sh, i}
						continue
					}
					k1, _ := c18Key(vals[i], sh)
					k2, _ := c18Key(vals[o[1]], o[0])
					if k1 != k2 {
						k := c18Case{Value: vals[i], Hex: []byte(vals[i]), Shape: sh, Other: []byte(vals[o[1]]), OSh: o[0]}
						what := fmt.Sprintf("%s: has the same normal form as value %q", k, vals[o[1]])
						c.Violation(what, what, k)
					}
				}
			}
			c.Extra("normal_forms", len(seen))
			wv := c18Values(2)
			if c.Thorough {
				wv = c18Values(3)
			}
			wv = append(wv, c18Long()...)
			ws := make([]*c18Worker, c.Workers)
			c.Par(len(wv), func(w, i int) {
				if ws[w] == nil {
					x, err := c18Open(c, w)
					if err != nil {
						c.Errorf("%v", err)
						return
					}
					ws[w] = x
				}
				k := c18Case{Value: wv[i], Hex: []byte(wv[i]), Wire: true}
				c.Announce(w, k)
				c.Evals.Add(1)
				if i%61 == 7 {
					c.Sample(k.String())
				}
				if what := ws[w].wire(c, wv[i]); what != "" {
					c.Violation(k.String()+": "+what, k.String()+": "+what, k)
					ws[w].d.Close()
					ws[w] = nil
				}
			})
			if what := c18Siblings(c, append(c18Values(2), c18Long()...)); what != "" {
				c.Violation(what, what, c18Case{Shape: -1})
			}
			c.Evals.Add(1)
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c18Case) string {
			if k.Shape < 0 {
				return c18Siblings(c, append(c18Values(2), c18Long()...))
			}
			k.Value = string(k.Hex)
			if k.Wire {
				x, err := c18Open(c, w)
				if err != nil {
					return err.Error()
				}
				defer x.d.Close()
				return x.wire(c, k.Value)
			}
			n, what := c18Func(k.Value, k.Shape)
			if what == "" && k.Other != nil {
				n2, _ := c18Func(string(k.Other), k.OSh)
				if n == n2 {
					return fmt.Sprintf("%s: has the same normal form as value %q", k, k.Other)
				}
			}
			return what
		}),
	})
}
