package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// c20Case is one of: a directory of given entries, a history, an LDIF file.
type c20Case struct {
	Vals  [][]byte `json:"vals,omitempty"`  // values of one entry each
	Names [][]byte `json:"names,omitempty"` // values of naming attributes
	Hex   bool     `json:"hex,omitempty"`   // names are hex-escaped
	Attrs []string `json:"attrs,omitempty"` // attribute names
	Hist  []int    `json:"hist,omitempty"`  // operations
	Recs  []int    `json:"recs,omitempty"`  // records of an LDIF file
	NoEnd bool     `json:"noend,omitempty"`
	More  []int    `json:"more,omitempty"` // records of a second file, loaded later
	Kind  string   `json:"kind"`
}

var c20Alphabet = []string{" ", ":", "<", "#", "a", "\n", "\r", "\x00", "é", "\xff", "=", ",", "\\", "-", "\t", "~", "\x7f", "+", "\"", ";"}

// c20Strings are all strings of up to n letters.
func c20Strings(n int) (l [][]byte) {
	level := [][]byte{{}}
	l = append(l, []byte{})
	for i := 0; i < n; i++ {
		var next [][]byte
		for _, p := range level {
			for _, a := range c20Alphabet {
				next = append(next, append(append([]byte{}, p...), a...))
			}
		}
		l = append(l, next...)
		level = next
	}
	return l
}

// c20Bytes are values with every byte.
func c20Bytes() (l [][]byte) {
	for b := 0; b < 256; b++ {
		for _, f := range []string{"%s", "x%sx", "%sx", "x%s", "x%sd"} {
			l = append(l, []byte(strings.Replace(f, "%s", string([]byte{byte(b)}), 1)))
		}
	}
	return l
}

// c20Long are values around the line length.
func c20Long() (l [][]byte) {
	for _, n := range []int{58, 59, 60, 61, 62, 63, 64, 65, 66, 74, 75, 76, 77, 78, 135, 136, 137, 138, 139, 150, 151, 152, 153, 1000, 70000} {
		for _, c := range []string{"a", " ", "é", "\n", ": ", "\xff", "#"} {
			l = append(l, []byte(strings.Repeat("x", n)+c+"y"), []byte(strings.Repeat("x", n)+c), []byte(strings.Repeat(c, n)), []byte("x"+strings.Repeat(c, n)))
		}
	}
	return l
}

// c20Escape writes an attribute value into a name.
func c20Escape(v []byte, hex bool) string {
	var b strings.Builder
	for i, c := range v {
		switch {
		case hex || c == 0 || c >= 0x80 && !validUTF8(v):
			fmt.Fprintf(&b, "\\%02x", c)
		case strings.IndexByte(",+\"\\<>;=#", c) >= 0, c == ' ' && (i == 0 || i == len(v)-1):
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func validUTF8(b []byte) bool {
	for _, r := range string(b) {
		if r == 0xfffd {
			return false
		}
	}
	return true
}

func c20Entries(k c20Case) (l []dir.SeedEntry) {
	for i, v := range k.Vals {
		cn := fmt.Sprintf("e%d", i)
		l = append(l, dir.E("cn="+cn+",dc=x", "cn", cn, "description", "first", "description", string(v), "sn", string(v)))
	}
	for i, v := range k.Names {
		ou := fmt.Sprintf("n%d", i)
		l = append(l, dir.E("ou="+ou+",dc=x", "ou", ou),
			dir.E("description="+c20Escape(v, k.Hex)+",ou="+ou+",dc=x", "description", string(v)),
			dir.E("sn=a+description="+c20Escape(v, k.Hex)+",ou="+ou+",dc=x", "description", string(v), "sn", "a"),
			dir.E("cn=c,description="+c20Escape(v, k.Hex)+",ou="+ou+",dc=x", "cn", "c"))
	}
	for i, a := range k.Attrs {
		cn := fmt.Sprintf("a%d", i)
		l = append(l, dir.E("cn="+cn+",dc=x", "cn", cn, a, "value"), dir.E(a+"=v,cn="+cn+",dc=x", a, "v"), dir.E(a+"=w,cn="+cn+",dc=x", a, "w", a, "delete", "cn", "x", "sn", "y"))
	}
	return l
}

func c20Ops() []dir.Op {
	return []dir.Op{
		addOp("ou=New,dc=x", "ou", "New"), addOp("cn=c,cn=x,ou=a,dc=x", "cn", "c"), addOp("cn=a\\,b+sn=\\20z,ou=b,dc=x", "cn", "a,b", "sn", " z"),
		delOp("cn=x,ou=a,dc=x"), delOp("ou=b,dc=x"), delOp("cn=y,ou=a,dc=x"),
		renOp("ou=a,dc=x", "ou=zz", true), renOp("ou=b,dc=x", "ou=A b", false), renOp("cn=x,ou=a,dc=x", "cn=\\ lead", true), renOp("cn=y,ou=a,dc=x", "cn=a\\0ab", false),
		modOp("cn=x,ou=a,dc=x", ch(model.Replace, "description", " a", "b ", "")), modOp("cn=y,ou=a,dc=x", ch(model.Add, "jpegPhoto", "\x00\xff")), modOp("ou=a,dc=x", ch(model.Add, "description", strings.Repeat("l ", 60))),
		modOp("cn=y,ou=a,dc=x", ch(model.Delete, "cn"), ch(model.Delete, "sn"), ch(model.Delete, "objectClass"), ch(model.Delete, "description"), ch(model.Delete, "userPassword")), addOp("ou=none,dc=x"), addOp("ou=novalue,dc=x", "ou", "novalue"),
		modOp("cn=x,ou=a,dc=x", ch(model.Delete, "description")), pwOp("cn=x,ou=a,dc=x", "new"), addOp("cn=z,ou=b,dc=x", "cn", "z", "userPassword", "{CLEARTEXT} x"),
	}
}

// c20Records are pieces of LDIF files to load. They are put behind the base and the administrator.
func c20Records() []c21Rec {
	var l []c21Rec
	for i, r := range c21Recs() {
		if i >= c21Few {
			break
		}
		if strings.Contains(r.text, "{{") || r.name == "base" || r.first || r.name == "long folded" {
			continue
		}
		if r.name == "overlong line" {
			r.maybe = false
		}
		if r.name == "password" {
			r.ents = func(*c21File) []dir.SeedEntry {
				return []dir.SeedEntry{dir.E("cn=pw,dc=x", "cn", "pw", "userPassword", "secret", "userPassword", "other")}
			}
			r.maybe = true // twice the same attribute
		}
		l = append(l, r)
	}
	none := func(*c21File) []dir.SeedEntry { return nil }
	return append(l,
		c21Plain("below plain", "dn: cn=k,cn=a,dc=x\ncn: k", "cn=k,cn=a,dc=x", "cn", "k"),
		c21Plain("below below", "dn: cn=l,CN = K,cn=A,dc=x\ncn: l", "cn=l,cn=k,cn=a,dc=x", "cn", "l"),
		c21Plain("same name", "dn: CN = a , dc=x\ncn: a", "cn=a,dc=x", "cn", "a"),
		c21Rec{name: "elsewhere", text: "dn: cn=e,dc=elsewhere\ncn: e", bad: true, ents: none},
		c21Rec{name: "bad name", text: "dn: nonsense\ncn: e", bad: true, ents: none},
		c21Rec{name: "no parent", text: "dn: cn=np,ou=none,dc=x\ncn: np", bad: true, ents: none},
	)
}

const c20Head = "dn: dc=x\nobjectClass: organization\ndc: x\n\ndn: cn=admin,dc=x\nobjectClass: person\ncn: admin\nuserPassword: " + dir.AdminPW + "\n\n"

type c20Worker struct {
	dir, db, out, db2 string
	content           []byte
}

func c20Open(c *run.Ctx, w int) (*c20Worker, error) {
	d := filepath.Join(c.Scratch, fmt.Sprintf("c20-%d", w))
	os.MkdirAll(d, 0o755)
	x := &c20Worker{d, filepath.Join(d, "a.db"), filepath.Join(d, "out.ldif"), filepath.Join(d, "b.db"), nil}
	return x, nil
}

func c20All(d *dir.Dir) (string, error) {
	r := d.Adm.Do(wire.SearchOp(dir.Base, model.ScopeSub, 0, false, wire.FNot(wire.FEq("cn", "no such value")), nil))
	if r.Code != 0 {
		return "", fmt.Errorf("search: %d %s", r.Code, bad(r))
	}
	return model.CanonWire(r.Entries), nil
}

// trip exports x.db and loads the output into x.db2.
func (x *c20Worker) trip(want string) string {
	out, errs, code := idmd("", "boltdb", "export", "--boltdb-file", x.db, "--ldap-base-dn", dir.Base)
	if code != 0 {
		return fmt.Sprintf("export ends with %d: %s", code, trim(errs, 300))
	}
	if err := os.WriteFile(x.out, []byte(out), 0o600); err != nil {
		return err.Error()
	}
	os.Remove(x.db2)
	if _, errs, code = idmd("", "boltdb", "load", "--boltdb-file", x.db2, "--ldap-base-dn", dir.Base, "--input-file", x.out); code != 0 {
		return fmt.Sprintf("load of the export ends with %d: %s", code, trim(errs, 300))
	}
	d, err := dir.Open(x.db2, readFile(x.db2))
	if err != nil {
		return "loaded database does not open: " + err.Error()
	}
	defer d.Close()
	got, err := c20All(d)
	if err != nil {
		return err.Error()
	}
	if got != want {
		return "the loaded database differs: " + trim(model.Diff(got, want), 600)
	}
	return ""
}

// judge returns a description of the failure, and whether the case was judged at all.
func (x *c20Worker) judge(c *run.Ctx, k c20Case, seen func(string) bool) string {
	switch k.Kind {
	case "entries":
		os.Remove(x.db)
		if _, err := dir.Seed(x.db, dir.Base, dir.Standard()); err != nil {
			return err.Error()
		}
		d, err := dir.Open(x.db, readFile(x.db))
		if err != nil {
			return err.Error()
		}
		n := 0
		for _, e := range c20Entries(k) {
			if r := (dir.Op{K: "add", DN: e.DN, Attrs: e.Attrs}).Do(d.Adm); r.Code == 0 {
				n++
			}
		}
		want, err := c20All(d)
		if err != nil {
			return err.Error()
		}
		d.Close()
		c.Evals.Add(int64(n))
		c.Nontrivial.Add(int64(n))
		c.Outcome("round trip of entries")
		return x.trip(want)
	case "large":
		os.Remove(x.db)
		seed := [][]dir.SeedEntry{wideSeed(1500), deepSeed(150), dir.Standard()}[k.Hist[0]]
		if k.Hist[0] == 2 {
			for i, h := range c01Large() {
				if i%64 != 0 {
					continue
				}
				o := h.Ops[1]
				o.DN = fmt.Sprintf("cn=big%d,dc=x", len(seed))
				seed = append(seed, dir.SeedEntry{DN: o.DN, Attrs: o.Attrs})
			}
		}
		b, err := dir.Seed(x.db, dir.Base, seed)
		if err != nil {
			return err.Error()
		}
		d, err := dir.Open(x.db, b)
		if err != nil {
			return err.Error()
		}
		want, err := c20All(d)
		if err != nil {
			return err.Error()
		}
		d.Close()
		c.Evals.Add(1)
		c.Nontrivial.Add(1)
		return x.trip(want)
	case "history":
		if x.content == nil {
			var err error
			if x.content, err = dir.Seed(x.db, dir.Base, popSeed()); err != nil {
				return err.Error()
			}
		}
		d, err := dir.Open(x.db, x.content)
		if err != nil {
			return err.Error()
		}
		ops := c20Ops()
		for _, i := range k.Hist {
			ops[i].Do(d.Adm)
		}
		want, err := c20All(d)
		if err != nil {
			return err.Error()
		}
		d.Close()
		if seen(want) {
			return ""
		}
		c.Evals.Add(1)
		c.Nontrivial.Add(1)
		c.Outcome("round trip of a history")
		return x.trip(want)
	}
	if k.Kind == "base only" {
		// The rest is loaded into a database with nothing but the base, in a run of its own.
		c.Evals.Add(1)
		os.Remove(x.db)
		head := strings.SplitAfterN(c20Head, "\n\n", 2)
		for _, text := range head {
			if err := os.WriteFile(x.out, []byte(text), 0o600); err != nil {
				return err.Error()
			}
			if _, errs, code := idmd("", "boltdb", "load", "--boltdb-file", x.db, "--ldap-base-dn", dir.Base, "--input-file", x.out); code != 0 {
				return fmt.Sprintf("load of %q ends with %d: %s", text, code, trim(errs, 300))
			}
			out, errs, code := idmd("", "boltdb", "export", "--boltdb-file", x.db, "--ldap-base-dn", dir.Base)
			if code != 0 || strings.TrimSpace(out) == "" {
				return fmt.Sprintf("export after loading %q ends with %d: %q %s", text, code, out, trim(errs, 300))
			}
		}
		d, err := dir.Open(x.db, readFile(x.db))
		if err != nil {
			return err.Error()
		}
		want, err := c20All(d)
		d.Close()
		if err != nil {
			return err.Error()
		}
		return x.trip(want)
	}
	if k.Kind == "missing" {
		c.Evals.Add(1)
		os.Remove(x.out)
		os.Remove(x.db2)
		if _, errs, code := idmd("", "boltdb", "load", "--boltdb-file", x.db2, "--ldap-base-dn", dir.Base, "--input-file", x.out); code == 0 || crashed(errs, code) || strings.TrimSpace(errs) == "" {
			return fmt.Sprintf("load of a missing file: %d %s", code, trim(errs, 300))
		}
		os.Remove(x.db2)
		if out, errs, code := idmd("", "boltdb", "export", "--boltdb-file", x.db2, "--ldap-base-dn", dir.Base); code == 0 || out != "" || crashed(errs, code) {
			return fmt.Sprintf("export of a missing database: %d %s", code, trim(errs, 300))
		}
		os.WriteFile(x.out, []byte(c20Head), 0o600)
		if _, errs, code := idmd("", "boltdb", "load", "--boltdb-file", x.db2, "--ldap-base-dn", "dc=y", "--input-file", x.out); code == 0 || crashed(errs, code) || strings.TrimSpace(errs) == "" {
			return fmt.Sprintf("load below another base: %d %s", code, trim(errs, 300))
		}
		return ""
	}
	// Load of an LDIF file.
	all := c20Records()
	text := c20Head
	t := model.NewTree(dir.Base)
	t.Add("dc=x", attrsOf("objectClass", "organization", "dc", "x"))
	t.Add("cn=admin,dc=x", attrsOf("objectClass", "person", "cn", "admin", "userPassword", dir.AdminPW))
	fail, may := false, false
	more := func(recs []int) {
		for _, q := range recs {
			r := all[q]
			text += r.text + "\n\n"
			fail = fail || r.bad
			may = may || r.maybe
			for _, e := range r.ents(&c21File{}) {
				if !t.Add(e.DN, e.Attrs) {
					fail = true
				}
			}
		}
	}
	more(k.Recs)
	if k.NoEnd {
		text = strings.TrimRight(text, "\n")
	}
	os.WriteFile(x.out, []byte(text), 0o600)
	os.Remove(x.db2)
	if k.More != nil {
		if fail {
			return ""
		}
		if _, errs, code := idmd("", "boltdb", "load", "--boltdb-file", x.db2, "--ldap-base-dn", dir.Base, "--input-file", x.out); code != 0 {
			if may {
				return ""
			}
			return fmt.Sprintf("load failed with %d: %s", code, trim(errs, 300))
		}
		text = ""
		more(k.More)
		os.WriteFile(x.out, []byte(text), 0o600)
	}
	_, errs, code := idmd("", "boltdb", "load", "--boltdb-file", x.db2, "--ldap-base-dn", dir.Base, "--input-file", x.out)
	c.Evals.Add(1)
	if crashed(errs, code) {
		return "load crashed: " + trim(errs, 300)
	}
	if code != 0 {
		if strings.TrimSpace(errs) == "" {
			return "load failed without a message"
		}
		if !fail && !may {
			return fmt.Sprintf("load failed with %d: %s", code, trim(errs, 300))
		}
		c.Outcome("load refused")
		return ""
	}
	if fail {
		return "load succeeded although the file is broken"
	}
	d, err := dir.Open(x.db2, readFile(x.db2))
	if err != nil {
		return "loaded database does not open: " + err.Error()
	}
	defer d.Close()
	got, err := c20All(d)
	if err != nil {
		return err.Error()
	}
	if want := t.Canon(); got != want {
		return "content differs: " + trim(model.Diff(got, want), 600)
	}
	c.Outcome("loaded")
	c.Nontrivial.Add(1)
	return ""
}

func init() {
	register(&run.Check{
		ID: "C20", Level: "exploration",
		Rule:   "Round trips through export and load of directories that contain entries for all values of up to two letters (thorough: three) over 20 awkward letters, values with every byte and values around the line length, names made of them, plainly and hex-escaped, and unusual attribute names; round trips of wide and deep directories and of entries with many attributes and values; round trips of all directories reached by up to two operations (thorough: three); loads of all files of up to two records (thorough: three at a stride). Counted are entries, distinct directories and files; non-trivial are the ones stored.",
		Assume: []string{"entries the server refuses to add are left out", "an attribute without a value may be taken or refused"},
		Explore: func(c *run.Ctx) {
			var cases []c20Case
			n := 2
			if c.Thorough {
				n = 3
			}
			vals := append(append(c20Strings(n), c20Long()...), c20Bytes()...)
			names := append(c20Strings(n), c20Bytes()...)
			if c.Thorough {
				names = append(names, c20Long()...)
			}
			chunk := func(l [][]byte, f func([][]byte)) {
				for i := 0; i < len(l); i += 150 {
					f(l[i:min(i+150, len(l))])
				}
			}
			chunk(vals, func(l [][]byte) { cases = append(cases, c20Case{Kind: "entries", Vals: l}) })
			chunk(names, func(l [][]byte) {
				cases = append(cases, c20Case{Kind: "entries", Names: l}, c20Case{Kind: "entries", Names: l, Hex: true})
			})
			for _, a := range c20AttrNames {
				cases = append(cases, c20Case{Kind: "entries", Attrs: []string{a}})
			}
			ops := len(c20Ops())
			var hist func(h []int)
			hist = func(h []int) {
				cases = append(cases, c20Case{Kind: "history", Hist: append([]int{}, h...)})
				if len(h) < n {
					for i := 0; i < ops; i++ {
						hist(append(h, i))
					}
				}
			}
			hist(nil)
			cases = append(cases, c20Case{Kind: "missing"}, c20Case{Kind: "base only"}, c20Case{Kind: "large", Hist: []int{0}}, c20Case{Kind: "large", Hist: []int{1}}, c20Case{Kind: "large", Hist: []int{2}})
			recs := len(c20Records())
			for i := 0; i < recs; i++ {
				cases = append(cases, c20Case{Kind: "load", Recs: []int{i}}, c20Case{Kind: "load", Recs: []int{i}, NoEnd: true})
				for j := 0; j < recs; j++ {
					cases = append(cases, c20Case{Kind: "load", Recs: []int{i, j}})
					if c.Thorough || (i+j)%7 == 0 {
						cases = append(cases, c20Case{Kind: "load", Recs: []int{i}, More: []int{j}})
					}
					if c.Thorough {
						for k := 0; k < recs; k++ {
							if (i+3*j+7*k)%13 == 0 {
								cases = append(cases, c20Case{Kind: "load", Recs: []int{i, j, k}})
							}
						}
					}
				}
			}
			var mu sync.Mutex
			dist := map[string]bool{}
			seen := func(s string) bool {
				mu.Lock()
				defer mu.Unlock()
				if dist[s] {
					return true
				}
				dist[s] = true
				return false
			}
			ws := make([]*c20Worker, c.Workers)
			c.Par(len(cases), func(w, i int) {
				if c.Expired() || c.Enough() {
					return
				}
				k := cases[i]
				c.Announce(w, k)
				if ws[w] == nil {
					ws[w], _ = c20Open(c, w)
				}
				what := ws[w].judge(c, k, seen)
				if what != "" {
					k, what = ws[w].shrink(c, k, what)
					s := keyOf(k)
					c.Violation(s, trim(s, 400)+": "+what, k)
				}
				if i%97 == 3 {
					c.Sample(trim(keyOf(k), 200))
				}
			})
			c.Extra("distinct_directories", len(dist))
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c20Case) string {
			x, err := c20Open(c, w)
			if err != nil {
				return err.Error()
			}
			return x.judge(c, k, func(string) bool { return false })
		}),
	})
}

var c20AttrNames = []string{"description", "displayName;lang-de", "x-my-attr", "a1", "1.2.840.113556", "version", "dn", "control", "changetype", "Changetype", "add", "userPassword", "UID", "objectclass"}

// shrink looks for a single entry that fails.
func (x *c20Worker) shrink(c *run.Ctx, k c20Case, what string) (c20Case, string) {
	no := func(string) bool { return false }
	for len(k.Vals) > 1 || len(k.Names) > 1 {
		a, b := k, k
		a.Vals, b.Vals = k.Vals[:len(k.Vals)/2], k.Vals[len(k.Vals)/2:]
		a.Names, b.Names = k.Names[:len(k.Names)/2], k.Names[len(k.Names)/2:]
		if w := x.judge(c, a, no); w != "" {
			k, what = a, w
		} else if w := x.judge(c, b, no); w != "" {
			k, what = b, w
		} else {
			break
		}
	}
	return k, what
}
