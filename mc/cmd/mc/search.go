package main

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"unicode"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// Shared by the search checks: data, filters, and the expected result of a search.

// searchSeed is the data the filters are about. full is for directories that take any value and name.
func searchSeed(full bool) []dir.SeedEntry {
	l := []dir.SeedEntry{
		dir.E("dc=x", "objectClass", "domain", "dc", "x"),
		dir.E(dir.AdminDN, "objectClass", "person", "cn", "admin", "sn", "admin", "userPassword", dir.AdminPW),
		dir.E("ou=a,dc=x", "objectClass", "organizationalUnit", "ou", "a", "description", "ab"),
		dir.E("ou=b,dc=x", "objectClass", "organizationalUnit", "ou", "b"),
		dir.E("cn=a,ou=a,dc=x", "objectClass", "person", "objectClass", "top", "cn", "a", "sn", "Ab", "uid", "u1", "mail", "a@x.y", "mail", "b@x.y", "description", "abab"),
		dir.E("cn=Ab,ou=a,dc=x", "objectClass", "Person", "cn", "Ab", "cn", "bA", "sn", "aB", "uid", "U1", "mail", "A@x.y", "description", "aabb"),
		dir.E("cn=aba,ou=a,dc=x", "objectClass", "person", "cn", "aba", "sn", "b", "uid", "u2", "description", "ABA"),
		dir.E("cn=bab,ou=b,dc=x", "objectClass", "top", "cn", "bab", "sn", "x", "uid", "u3", "uid", "u1", "description", "b*b"),
		dir.E("cn=b,dc=x", "objectClass", "person", "cn", "b", "sn", "\xc3\xa4b", "mail", "*@x", "description", "\xc3\x84B", "uid", "\xff\xfeA", "mail", "\xfd\xfdA"),
		dir.E("cn=ab,dc=x", "objectClass", "person", "cn", "ab", "sn", "(a)", "mail", "a\\b", "description", " a b ", "uid", "\xfd\xfca", "mail", "\xfd\xfca"),
		dir.E("cn=x,cn=b,dc=x", "objectClass", "person", "cn", "x", "sn", "a", "description", "a(b)"),
		dir.E("cn=a,cn=x,cn=b,dc=x", "objectClass", "person", "cn", "a", "mail", "aXb", "description", "a\\b"),
		dir.E("cn=x,ou=b,dc=x", "objectClass", "top", "cn", "x", "cn", "abb", "sn", "bb", "sn", "aa", "description", "b", "description", "a"),
	}
	// Names of attributes and entries that resemble others, entries with hardly any attributes.
	l = append(l,
		dir.E("cn=one,ou=b,dc=x", "objectClass", "top"),
		dir.E("cn=mx,ou=b,dc=x", "objectClass", "person", "cn", "mx", "mailx", "a@x.y", "mai", "ab", "xmail", "a", "c", "a", "cnx", "a", "objectClas", "top", "xobjectClass", "organizationalUnit"),
		dir.E("xou=a,dc=x", "objectClass", "organizationalUnit", "xou", "a"),
		dir.E("cn=q,xou=a,dc=x", "objectClass", "person", "cn", "q", "sn", "Ab"),
		dir.E("cn=a,xou=a,dc=x", "objectClass", "person", "cn", "a", "mail", "a@x.y.z"),
		dir.E("ou=aa,dc=x", "objectClass", "organizationalUnit", "ou", "aa"),
		dir.E("cn=ab,ou=aa,dc=x", "objectClass", "person", "cn", "ab", "uid", "u11"),
	)
	// Every byte, the even and the odd ones in different entries.
	for par := 0; par < 2; par++ {
		cn := fmt.Sprintf("bytes%d", par)
		e := dir.E("cn="+cn+",ou=b,dc=x", "objectClass", "top", "cn", cn)
		var vs []string
		for b := par; b < 256; b += 2 {
			vs = append(vs, "q"+string([]byte{byte(b)})+"q")
		}
		e.Attrs = append(e.Attrs, model.Attr{Name: "description", Values: vs}, model.Attr{Name: "sn", Values: vs})
		l = append(l, e)
	}
	// Letters with several spellings, in different entries.
	for par := 0; par < 5; par++ {
		cn := fmt.Sprintf("letters%d", par)
		e := dir.E("cn="+cn+",ou=b,dc=x", "objectClass", "top", "cn", cn)
		var vs []string
		for i, r := range searchLetters() {
			if i%5 == par {
				vs = append(vs, "f"+string(r)+"g")
			}
		}
		e.Attrs = append(e.Attrs, model.Attr{Name: "description", Values: vs}, model.Attr{Name: "sn", Values: vs}, model.Attr{Name: "uid", Values: vs})
		l = append(l, e)
	}
	for i, n := range searchLengths {
		cn := fmt.Sprintf("length%d", n)
		e := dir.E("cn="+cn+",ou=b,dc=x", "objectClass", "top", "cn", cn)
		v := searchLong(n)
		e.Attrs = append(e.Attrs, model.Attr{Name: "description", Values: []string{v}}, model.Attr{Name: "sn", Values: []string{v}})
		if i%2 == 0 {
			e.Attrs = append(e.Attrs, model.Attr{Name: "uid", Values: []string{"x", v}})
		}
		l = append(l, e)
	}
	if full {
		l = append(l,
			dir.E("cn=empty,ou=b,dc=x", "objectClass", "top", "cn", "empty", "description", "", "sn", "", "sn", "emptied"),
			dir.E("cn=a\\,b,dc=x", "objectClass", "person", "cn", "a,b", "description", "a\x00b"),
			dir.E("cn=y\\2bz,cn=a\\,b,dc=x", "objectClass", "person", "cn", "y+z", "description", "a\nb"),
		)
		for i := 1; i <= searchDepth; i++ {
			cn := fmt.Sprintf("d%d", i)
			l = append(l, dir.E(searchDeep(i), "objectClass", "device", "cn", cn, "sn", fmt.Sprintf("deep%d", i%2)))
		}
	}
	return l
}

const searchDepth = 48

// searchDeep is the name of an entry n levels below the base.
func searchDeep(n int) string {
	dn := "dc=x"
	for i := 1; i <= n; i++ {
		dn = fmt.Sprintf("cn=d%d,%s", i, dn)
	}
	return dn
}

// searchLetters are the letters that are equal to more than one other letter, and some that are not but look so.
func searchLetters() []rune {
	l := []rune{'s', 'S', 'k', 'K', 'i', 'I', 0x130, 0x131}
	for r := rune(128); r < 0x30000; r++ {
		n := 0
		for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
			n++
		}
		if n > 1 {
			l = append(l, r)
		}
	}
	return l
}

var searchLengths = []int{127, 128, 255, 256, 257, 1023, 1024, 4097, 20000}

func searchLong(n int) string { return strings.Repeat("lo", n/2) + strings.Repeat("l", n%2) }

func searchLDIF(es []dir.SeedEntry) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "dn: %s\n", e.DN)
		for _, a := range e.Attrs {
			for _, v := range a.Values {
				fmt.Fprintf(&b, "%s:: %s\n", a.Name, base64.StdEncoding.EncodeToString([]byte(v)))
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

var (
	feq  = func(a, v string) *model.Filter { return &model.Filter{Kind: model.FEq, Attr: a, Value: v} }
	fpr  = func(a string) *model.Filter { return &model.Filter{Kind: model.FPresent, Attr: a} }
	fnot = func(f *model.Filter) *model.Filter { return &model.Filter{Kind: model.FNot, Subs: []*model.Filter{f}} }
	fand = func(f ...*model.Filter) *model.Filter { return &model.Filter{Kind: model.FAnd, Subs: f} }
	foor = func(f ...*model.Filter) *model.Filter { return &model.Filter{Kind: model.FOr, Subs: f} }
	fsub = func(a, i string, any []string, e string) *model.Filter {
		return &model.Filter{Kind: model.FSub, Attr: a, Initial: i, Any: any, Final: e}
	}
)

// searchLeaves are single conditions.
func searchLeaves(thorough bool) []*model.Filter {
	var l []*model.Filter
	for _, a := range []string{"cn", "CN", "sn", "uid", "mail", "description", "Description", "objectClass", "objectclass", "ou", "dc", "missing", "mai", "mailx", "xmail", "m", "c", "cnx", "xou", "objectClas", "xobjectClass"} {
		l = append(l, fpr(a))
	}
	vals := []string{"a", "A", "b", "ab", "AB", "aB", "bA", "aba", "ABA", "abab", "u1", "U1", "person", "PERSON", "top", "x", "", "*", "b*b", "*@x", "a@x.y", "(a)", "a(b)", "a\\b", "A\\B", " a b ", "a b", "\xc3\xa4b", "\xc3\x84B", "abb", "aa", "a*", "a,b", "a\x00b", "A\nb", "\xff\xfea", "\xfd\xfcA"}
	for _, a := range []string{"cn", "SN", "uid", "mail", "description", "objectClass", "ou", "missing"} {
		for _, v := range vals {
			l = append(l, feq(a, v))
		}
	}
	for _, a := range []string{"mai", "mailx", "xmail", "c", "cnx", "xou", "objectClas", "xobjectClass"} {
		for _, v := range []string{"a", "ab", "a@x.y", "top", "organizationalUnit"} {
			l = append(l, feq(a, v), fsub(a, "a", nil, ""), fsub(a, "", []string{"b"}, ""), fsub(a, "", nil, "t"))
		}
	}
	for b := 0; b < 256; b++ {
		v := string([]byte{byte(b)})
		for _, a := range []string{"description", "sn"} {
			l = append(l, feq(a, "q"+v+"q"), fsub(a, "q"+v, nil, ""), fsub(a, "", []string{v}, "q"), fsub(a, "", nil, v+"q"))
		}
	}
	for _, r := range searchLetters() {
		v := string(r)
		for _, a := range []string{"description", "sn", "uid"} {
			l = append(l, feq(a, "f"+v+"g"))
			if r != 'i' && r != 'I' { // with one of which the dotted capital letter may begin
				l = append(l, fsub(a, "f"+v, nil, ""), fsub(a, "", []string{v}, "g"), fsub(a, "", nil, v+"g"))
			}
		}
	}
	for _, n := range searchLengths {
		v := searchLong(n)
		for _, a := range []string{"description", "sn", "uid"} {
			l = append(l, feq(a, v), feq(a, strings.ToUpper(v)), feq(a, v[:n-1]), fsub(a, v[:n-2], nil, ""), fsub(a, "", []string{v[1:]}, ""), fsub(a, "", nil, v[2:]), fsub(a, v[:n/2], nil, v[n/2+1:]))
		}
	}
	pieces := []string{"", "a", "B", "ab", "ba"}
	odd := []string{"*", "(", ")", "\\", " ", "\xc3\xa4", "\xc3\x84b", "@", "\x00", ",", "\xfd"}
	for _, a := range []string{"cn", "sn", "mail", "Description"} {
		add := func(i string, m []string, e string) {
			if i != "" || len(m) > 0 || e != "" {
				l = append(l, fsub(a, i, m, e))
			}
		}
		for _, i := range pieces {
			for _, e := range pieces {
				add(i, nil, e)
				for _, m := range pieces[1:] {
					add(i, []string{m}, e)
					for _, m2 := range pieces[1:] {
						if thorough || (i == "" || e == "") && (a == "cn" || a == "Description") {
							add(i, []string{m, m2}, e)
						}
					}
				}
			}
		}
		for _, o := range odd {
			add(o, nil, "")
			add("", nil, o)
			add("", []string{o}, "")
			add("a", []string{o}, "b")
			add("a"+o, nil, "b")
			add("", []string{"a" + o + "b"}, "")
		}
		if thorough {
			for _, m := range pieces[1:] {
				for _, m2 := range pieces[1:] {
					for _, m3 := range pieces[1:] {
						add("", []string{m, m2, m3}, "")
					}
				}
			}
		}
	}
	return l
}

// searchCombos are combinations of conditions.
func searchCombos(thorough bool) []*model.Filter {
	base := []*model.Filter{
		fpr("cn"), fpr("mail"), fpr("description"), fpr("missing"),
		feq("cn", "a"), feq("CN", "AB"), feq("cn", "none"), feq("objectClass", "person"), feq("objectClass", "top"), feq("objectclass", "none"),
		feq("uid", "u1"), feq("mail", "a@x.y"), feq("description", "aba"), feq("description", "none"),
		fsub("cn", "a", nil, ""), fsub("cn", "", nil, "b"), fsub("sn", "", []string{"b"}, ""), fsub("cn", "a", nil, "b"), fsub("description", "a", nil, ""), fsub("uid", "u", nil, ""),
		fpr("objectClass"),
	}
	var l []*model.Filter
	for _, f := range base {
		l = append(l, fnot(f), fnot(fnot(f)), fand(f), foor(f), fnot(fand(f)), fnot(foor(f)))
	}
	for _, a := range base {
		for _, b := range base {
			l = append(l, fand(a, b), foor(a, b), fand(a, fnot(b)), foor(a, fnot(b)), foor(fnot(a), b), fnot(fand(a, b)), fnot(foor(a, b)))
		}
	}
	small := []*model.Filter{fpr("mail"), feq("cn", "a"), feq("objectClass", "person"), feq("description", "aba"), feq("cn", "none"), fsub("cn", "a", nil, ""), fsub("cn", "a", nil, "b"), feq("uid", "u1")}
	if thorough {
		small = append(small, fpr("missing"), feq("objectClass", "top"), fpr("cn"), fsub("description", "", []string{"a"}, ""))
	}
	for _, a := range small {
		for _, b := range small {
			for _, c := range small {
				l = append(l, fand(a, foor(b, c)), foor(a, fand(b, c)), foor(fand(a, b), c), fand(foor(a, b), c), foor(a, b, c), fand(a, b, c),
					fand(a, foor(b, fnot(c))), foor(a, fand(b, fnot(c))), fand(a, fnot(fand(b, c))), foor(a, fnot(foor(b, c))), fand(a, fnot(foor(b, c))), foor(fnot(a), fand(fnot(b), c)))
				if thorough {
					for _, d := range small {
						l = append(l, foor(fand(a, b), fand(c, d)), fand(foor(a, b), foor(c, d)), fand(a, foor(b, fand(c, d))), foor(a, fand(b, foor(c, d))), fnot(foor(fand(a, fnot(b)), fand(c, d))), foor(fand(a, fnot(b)), c, d))
					}
				}
			}
		}
	}
	return l
}

// scopeOf selects the entries in scope by name alone.
func scopeOf(es []*model.Entry, base string, scope int) []*model.Entry {
	d, err := model.ParseDN(base)
	if err != nil {
		return nil
	}
	var r []*model.Entry
	for _, e := range es {
		if e.DN.Under(d) && (scope == model.ScopeSub || len(e.DN) == len(d)+scope) {
			r = append(r, e)
		}
	}
	return r
}

func modelEntries(es []dir.SeedEntry) []*model.Entry {
	var r []*model.Entry
	for _, e := range es {
		d, err := model.ParseDN(e.DN)
		if err != nil {
			panic(err)
		}
		r = append(r, &model.Entry{DN: d, Attrs: e.Attrs})
	}
	return r
}

// keyCache maps returned names to canonical names.
type keyCache map[string]string

func (k keyCache) of(dn string) string {
	if v, ok := k[dn]; ok {
		return v
	}
	v := "unparsable:" + dn
	if d, err := model.ParseDN(dn); err == nil {
		v = d.Key()
	}
	k[dn] = v
	return v
}

// sameNames compares returned entries with expected ones by name.
func sameNames(kc keyCache, got []wire.Entry, want []*model.Entry) string {
	g, w := make([]string, 0, len(got)), make([]string, 0, len(want))
	for _, e := range got {
		g = append(g, kc.of(e.DN))
	}
	for _, e := range want {
		w = append(w, e.DN.Key())
	}
	sort.Strings(g)
	sort.Strings(w)
	a, b := strings.Join(g, " "), strings.Join(w, " ")
	if a == b {
		return ""
	}
	return fmt.Sprintf("returned [%s], expected [%s]", a, b)
}

// searcher is a connection that is made anew when the server closes it.
type searcher struct {
	s      *wire.Srv
	dn, pw string
	c      *wire.Client
}

func (s *searcher) do(op *ber.Node, ctrls ...wire.Control) (wire.Result, error) {
	for try := 0; ; try++ {
		if s.c == nil {
			s.c = s.s.Dial()
			if s.dn != "" {
				if r := s.c.Bind(s.dn, s.pw); r.Code != 0 {
					return r, fmt.Errorf("bind: %d %s", r.Code, bad(r))
				}
			}
		}
		r := s.c.Do(op, ctrls...)
		if r.Code == 0 {
			return r, nil
		}
		s.c.Close()
		s.c = nil
		if r.Code == wire.CodeClosed && try == 0 {
			continue // the server may have closed it after the previous answer
		}
		return r, nil
	}
}

type searchCase struct {
	Base   string        `json:"base"`
	Scope  int           `json:"scope"`
	Filter *model.Filter `json:"filter"`
}

func (k searchCase) String() string {
	return fmt.Sprintf("search base %q scope %d filter %s", k.Base, k.Scope, strings.Map(func(r rune) rune {
		if r < ' ' {
			return '?'
		}
		return r
	}, k.Filter.String()))
}

// searchCases enumerates filter x base x scope.
func searchCases(c *run.Ctx, bases []string) []searchCase {
	var cases []searchCase
	leaves, combos := searchLeaves(true), searchCombos(c.Thorough)
	c.Extra("filters", len(leaves)+len(combos))
	for i, f := range append(append([]*model.Filter{}, leaves...), combos...) {
		for bi, b := range bases {
			for sc := 0; sc < 3; sc++ {
				if bi == 0 && sc == 2 || c.Thorough || i%5 == (bi*3+sc)%5 || i < 25 {
					cases = append(cases, searchCase{b, sc, f})
				}
			}
		}
	}
	return cases
}
