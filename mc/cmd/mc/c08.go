package main

import (
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/crypto/argon2"

	"idmverif/lib/dir"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// Values made by crypt(3).
var c08Crypt = [][2]string{
	{"secret", "abNANd1rDfiNc"},
	{"secret", "./17m29LFAflg"},
	{"secret", "ZzU3r240Q6iws"},
	{"secret", "$1$saltsalt$9xy1btjgzLYfb7hivXtC//"},
	{"secret", "$5$rounds=1000$saltsaltsalt$jeQ3Wbe2JixnvtlZtYweZUFjfxf4JtmzGAyxAW53.M2"},
	{"secret", "$6$rounds=1000$saltsaltsaltsalt$cv7no.30n.S75jcCNBQv6o7WVXQ5AaB1EpIeSKwsNupcnQDQ0DsukcAPRNjPumwKIBg2JK5ii9uw5enNnnA4N/"},
	{"secret", "$6$s$0ONk7Cb6vQHj.WRVKbGZ0Y86yhuLam11L92a6wziCUwhPAmO1YdgYIoxpvS.wNpwTsZveSEo7dJ07No6GUEhX0"},
	{"s3cr et", "abBS0qgI4K3XQ"},
	{"s3cr et", "$1$saltsalt$dkyy1HigtOIU3r7pxdu9r0"},
	{"s3cr et", "$5$rounds=1000$saltsaltsalt$/Y8EmYsuYNq8bHPmFImB327KLJvVhpbLeeOatVsq6s2"},
	{"s3cr et", "$6$rounds=1000$saltsaltsaltsalt$fD3MNafxcUcRVNO40gwAvuMlW0gb8NpV0UnlxLSprfxaSfEu4bbbbLkwy9C3r1lfqjtakBzkvrxkBp9dLNNga/"},
	{"a", "abxxB7HlIeckU"},
	{"a", "./xT2u5QYaHcU"},
	{"a", "$1$saltsalt$MzDjbImyzEz2m0NTiPzNW/"},
	{"a", "$5$rounds=1000$saltsaltsalt$M8xrTCmJkEYoaPWIGXVS2Jl.Ph/CEDIxO801oU2GfL6"},
	{"päss", "abxNd6oRGYP9Q"},
	{"päss", "$6$rounds=1000$saltsaltsaltsalt$yg8XSN4VYHXLAiXEorFovXJ/mU.mQPFCABEluM8FiaT5KdYwHvahrhzj5cmmjyeQyk4Ko.UeMkYba2BnKcomA1"},
}

var c08PWs = []string{"secret", "s3cr et", "a", "päss", "with}brace", "a\x00b", "tab\tnl\n", "\xff\xfe", strings.Repeat("long", 60), c08Long(64), c08Long(72), c08Long(128), c08Long(256), c08Long(1024), c08Long(4096), c08Long(20000)}

// c08Long is a password that is longer than n by one.
func c08Long(n int) string { return strings.Repeat("pq", n/2) + "r" }

func ssha(pw, salt string) string {
	h := sha1.Sum([]byte(pw + salt))
	return base64.StdEncoding.EncodeToString(append(h[:], salt...))
}

func argon(pw, salt string, m, t uint32, p uint8, n uint32) string {
	k := argon2.IDKey([]byte(pw), []byte(salt), t, m, p, n)
	e := base64.RawStdEncoding
	return fmt.Sprintf("$argon2id$v=19$m=%d,t=%d,p=%d$%s$%s", m, t, p, e.EncodeToString([]byte(salt)), e.EncodeToString(k))
}

type c08Val struct {
	stored []byte
	pw     string // the password it was made from
	valid  bool
}

func c08Values(thorough bool) []c08Val {
	var r []c08Val
	add := func(s, pw string, valid bool) { r = append(r, c08Val{[]byte(s), pw, valid}) }
	schemes := func(s string) []string {
		return []string{"{" + s + "}", "{" + strings.ToLower(s) + "}", "{" + s[:1] + strings.ToLower(s[1:]) + "}"}
	}
	var forDamage []string
	for _, c := range c08Crypt {
		for i, s := range schemes("CRYPT") {
			add(s+c[1], c[0], true)
			if i == 0 && c[0] == "secret" {
				forDamage = append(forDamage, s+c[1])
			}
		}
	}
	for _, pw := range c08PWs {
		add(pw, pw, true)
		for i, s := range schemes("SSHA") {
			add(s+ssha(pw, "salt"), pw, true)
			add(s+ssha(pw, "\x00\xff\x01\x80"), pw, true)
			if i == 0 && pw == "secret" {
				forDamage = append(forDamage, s+ssha(pw, "salt"))
			}
		}
		for i, s := range schemes("ARGON2") {
			v := s + argon(pw, "saltsaltsaltsalt", 8, 1, 1, 32)
			add(v, pw, true)
			add(s+argon(pw, "saltsalt", 16, 2, 2, 16), pw, true)
			if i == 0 && pw == "secret" {
				forDamage = append(forDamage, v)
			}
		}
	}
	seen := map[string]bool{}
	for _, v := range r {
		seen[string(v.stored)] = true
	}
	badv := func(s string) {
		if !seen[s] {
			seen[s] = true
			add(s, "secret", false)
		}
	}
	subst := "A$"
	if thorough {
		subst = "A$0*=,}z/"
	}
	for _, v := range forDamage {
		b := strings.Index(v, "}") + 1
		for i := b; i < len(v); i++ {
			badv(v[:i])
			badv(v[:i] + v[i+1:])
			for _, c := range subst {
				badv(v[:i] + string(c) + v[i+1:])
			}
		}
		// the same text under other schemes
		for _, s := range []string{"{MD5}", "{SHA}", "{}", "{ SSHA}", "{SSHA }", "{ARGON}", "{CRYPT2}", "{SSHA}", "{CRYPT}", "{ARGON2}", "{CLEARTEXT}", "{PLAIN}"} {
			badv(s + v[b:])
		}
		badv(v[:b] + v)
		badv(v + v[b:])
	}
	for _, s := range []string{"", "{}", "{}secret", "{MD5}secret", "{SHA}", "{CLEARTEXT}secret", "{PLAIN}secret", "{CRYPT}", "{CRYPT}*", "{CRYPT}*0", "{CRYPT}*1", "{CRYPT}!", "{CRYPT}!!", "{CRYPT}x", "{CRYPT}xx",
		"{CRYPT}$", "{CRYPT}$$", "{CRYPT}$$$", "{CRYPT}$$$$", "{CRYPT}$6", "{CRYPT}$6$", "{CRYPT}$6$$", "{CRYPT}$6$$$", "{CRYPT}$9$a$b", "{CRYPT}$6$rounds=1000$", "{CRYPT}\x00\x00", "{CRYPT}ab\x00",
		"{SSHA}", "{SSHA}=", "{SSHA}====", "{SSHA}A", "{SSHA}AAAA", "{SSHA}AAAAAA==", "{SSHA}AAAAAAA=", "{SSHA}\n", "{SSHA}secret",
		"{ARGON2}", "{ARGON2}$", "{ARGON2}$argon2id$", "{ARGON2}$$$$$", "{ARGON2}$argon2id$v=19$m=8,t=1,p=1$$", "{ARGON2}$argon2id$v=19$m=8,t=1,p=1$c2FsdA$", "{ARGON2}$argon2id$v=19$m=8,t=0,p=1$c2FsdHNhbHQ$AAAAAAAAAAA",
		"{ARGON2}$argon2id$v=19$m=8,t=1,p=0$c2FsdHNhbHQ$AAAAAAAAAAA", "{ARGON2}$argon2id$v=19$m=0,t=0,p=0$c2FsdHNhbHQ$AAAAAAAAAAA", "{ARGON2}$argon2i$v=19$m=8,t=1,p=1$c2FsdHNhbHQ$AAAAAAAAAAA", "{ARGON2}$argon2id$v=19$m=-1,t=-1,p=-1$c2FsdHNhbHQ$AAAAAAAAAAA",
		"{ARGON2}$argon2id$v=19$m=8,t=1,p=1$c2FsdHNhbHQ$AA", "{ARGON2}$argon2id$v=19$m=8,t=1,p=256$c2FsdHNhbHQ$AAAAAAAAAAA", "{ARGON2}secret",
	} {
		badv(s)
	}
	return r
}

// c08Tries lists passwords to try; the first is the right one for valid values.
func c08Tries(v c08Val, thorough bool) []string {
	t := []string{v.pw, v.pw + "x", v.pw + " ", v.pw + "\x00", v.pw + "\x00x", "x" + v.pw, v.pw[:len(v.pw)-1], strings.ToUpper(v.pw), v.pw + v.pw, "x", "secret"}
	s := string(v.stored)
	t = append(t, s)
	if i := strings.Index(s, "}"); i >= 0 {
		t = append(t, s[i+1:])
	}
	if thorough {
		for i := 0; i < len(v.pw); i += 1 + len(v.pw)/200 {
			t = append(t, v.pw[:i]+v.pw[i+1:], v.pw[:i]+"\x7f"+v.pw[i+1:])
		}
		if v.valid {
			for c := 0; c < 256; c++ {
				// traditional crypt only uses seven bits of a byte
				if c < 0x80 || s[0] != '{' || strings.Contains(s, "$") || !strings.HasPrefix(strings.ToUpper(s), "{CRYPT}") {
					t = append(t, v.pw+string([]byte{byte(c)}))
				}
			}
		} else {
			for c := 0; c < 128; c++ {
				t = append(t, string([]byte{byte(c)}))
			}
		}
	}
	seen := map[string]bool{"": true, v.pw: true}
	r := []string{v.pw}
	for _, x := range t {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return append(r, "")
}

type c08Case struct {
	Backend string `json:"backend"`
	Stored  []byte `json:"stored"`
	PW      []byte `json:"pw"`
	Want    bool   `json:"want"`
	Change  bool   `json:"change,omitempty"` // stored by a password change instead of given
}

func (k c08Case) key(r wire.Result) string {
	return fmt.Sprintf("%s: password %q for stored value %q (set by password change: %v), which it matches: %v: answer %d %s", k.Backend, k.PW, k.Stored, k.Change, k.Want, r.Code, bad(r))
}

func c08Seed() []dir.SeedEntry {
	return append(dir.Standard(), dir.E("cn=t,dc=x", "objectClass", "person", "cn", "t", "userPassword", "initial"))
}

// want: for plain text stored values the password is the text itself.
func (v c08Val) matches(pw string) bool {
	if pw == "" {
		return false
	}
	return v.valid && pw == v.pw
}

func c08Store(d *dir.Dir, k c08Case) string {
	var r wire.Result
	if k.Change {
		u, n := "cn=t,dc=x", string(k.Stored)
		r = d.Adm.Do(wire.PwModOp(&u, nil, &n, false))
	} else {
		r = d.Adm.Do(wire.ModifyOp("cn=t,dc=x", []wire.Change{{Op: wire.ModReplace, Attr: wire.Attr{Name: "userPassword", Values: []string{string(k.Stored)}}}}))
	}
	if r.Code != 0 {
		return fmt.Sprintf("cannot store %q: %d %s", k.Stored, r.Code, bad(r))
	}
	return ""
}

func c08LDIF(d string, vals []c08Val) (*wire.Srv, error) {
	var b strings.Builder
	b.WriteString("dn: dc=x\nobjectClass: domain\ndc: x\n\n")
	for i, v := range vals {
		if len(v.stored) == 0 {
			continue
		}
		fmt.Fprintf(&b, "dn: cn=t%d,dc=x\nobjectClass: person\ncn: t%d\nuserPassword:: %s\n\n", i, i, base64.StdEncoding.EncodeToString(v.stored))
	}
	return wire.Start(ldifConfig(d, b.String(), ""))
}

func init() {
	register(&run.Check{
		ID: "C08", Level: "exploration",
		Rule:   "Every supported stored form of several passwords of up to 20000 bytes, every truncation, deletion and substitution of one character of each form, and a list of malformed values, each tried by LDAP bind with the right and with near-miss passwords on both backends; non-trivial are the binds expected to succeed.",
		Assume: []string{"crypt values are constants made by crypt(3); passwords for the traditional crypt are at most 8 bytes and no near miss differs only in the eighth bit of a byte", "truncation inside the scheme name gives a clear-text value and is left out"},
		Explore: func(c *run.Ctx) {
			vals := c08Values(c.Thorough)
			c.Extra("stored_values", len(vals))
			seed, err := dir.Seed(filepath.Join(c.Scratch, "seed.db"), dir.Base, c08Seed())
			if err != nil {
				c.Errorf("%v", err)
				return
			}
			ls, err := c08LDIF(filepath.Join(c.Scratch, "ldif"), vals)
			if err != nil {
				c.Errorf("%v", err)
				return
			}
			defer ls.Stop()
			dirs := make([]*dir.Dir, c.Workers)
			conns := make([]*wire.Client, c.Workers)
			get := func(w int) *dir.Dir {
				if dirs[w] == nil {
					if dirs[w], err = dir.Open(filepath.Join(c.Scratch, fmt.Sprintf("w%d.db", w)), seed); err != nil {
						c.Errorf("%v", err)
					}
				}
				return dirs[w]
			}
			try := func(w int, s *wire.Srv, dn string, k c08Case) {
				c.Announce(w, k)
				c.Evals.Add(1)
				if k.Want {
					c.Nontrivial.Add(1)
				}
				r := conns[w].Bind(dn, string(k.PW))
				if r.Code < 0 {
					conns[w] = s.Dial()
				}
				if r.Code < 0 || (r.Code == 0) != k.Want {
					c.Violation(k.key(r), k.key(r), k)
				}
			}
			c.Par(len(vals), func(w, i int) {
				v := vals[i]
				d := get(w)
				if d == nil {
					return
				}
				k := c08Case{Backend: "boltdb", Stored: v.stored}
				if i%397 == 3 {
					c.Sample(fmt.Sprintf("%q", v.stored))
				}
				if what := c08Store(d, k); what != "" {
					c.Violation(what, what, k)
					return
				}
				conns[w] = d.Srv.Dial()
				for _, pw := range c08Tries(v, c.Thorough) {
					k.PW, k.Want = []byte(pw), v.matches(pw)
					try(w, d.Srv, "cn=t,dc=x", k)
				}
				conns[w].Close()
				if len(v.stored) == 0 {
					return
				}
				conns[w] = ls.Dial()
				for _, pw := range c08Tries(v, false) {
					k.Backend, k.PW, k.Want = "ldif", []byte(pw), v.matches(pw)
					try(w, ls, fmt.Sprintf("cn=t%d,dc=x", i), k)
				}
				conns[w].Close()
			})
			// Newly made values.
			pws := append([]string{"{SSHA}x", "{", "{}"}, c08PWs...)
			c.Par(len(pws), func(w, i int) {
				d := get(w)
				if d == nil {
					return
				}
				k := c08Case{Backend: "boltdb", Stored: []byte(pws[i]), Change: true}
				c.Announce(w, k)
				if what := c08Store(d, k); what != "" {
					c.Violation(what, what, k)
					return
				}
				conns[w] = d.Srv.Dial()
				v := c08Val{[]byte(pws[i]), pws[i], true}
				for _, pw := range c08Tries(v, c.Thorough) {
					k.PW, k.Want = []byte(pw), v.matches(pw)
					try(w, d.Srv, "cn=t,dc=x", k)
				}
			})
			for _, d := range dirs {
				if d != nil {
					d.Close()
				}
			}
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c08Case) string {
			p := filepath.Join(c.Scratch, "r.db")
			var s *wire.Srv
			dn := "cn=t,dc=x"
			if k.Backend == "ldif" {
				os.RemoveAll(filepath.Join(c.Scratch, "l"))
				var err error
				if s, err = c08LDIF(filepath.Join(c.Scratch, "l"), []c08Val{{stored: k.Stored}}); err != nil {
					return err.Error()
				}
				dn = "cn=t0,dc=x"
			} else {
				seed, err := dir.Seed(p, dir.Base, c08Seed())
				if err != nil {
					return err.Error()
				}
				d, err := dir.Open(p, seed)
				if err != nil {
					return err.Error()
				}
				s = d.Srv
				if what := c08Store(d, k); what != "" {
					return what
				}
			}
			defer s.Stop()
			r := s.Dial().Bind(dn, string(k.PW))
			if r.Code < 0 || (r.Code == 0) != k.Want {
				return k.key(r)
			}
			return ""
		}),
	})
}
