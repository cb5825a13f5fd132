package main

import (
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/libregraph/idm"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// c21File is the template state within one file.
type c21File struct {
	company, mail string
	auto          int
}

// c21Rec is a piece of an LDIF file.
type c21Rec struct {
	name  string
	text  string
	ents  func(f *c21File) []dir.SeedEntry // what it stands for
	bad   bool                             // loading has to fail
	maybe bool                             // loading may fail
	first bool                             // valid only as the first record
	glue  bool                             // not followed by an empty line
}

func c21Plain(name, text, dn string, attrs ...string) c21Rec {
	return c21Rec{name: name, text: text, ents: func(*c21File) []dir.SeedEntry { return []dir.SeedEntry{dir.E(dn, attrs...)} }}
}

func c21Recs() []c21Rec {
	none := func(*c21File) []dir.SeedEntry { return nil }
	b64 := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
	big := strings.Repeat("0123456789", 6000)
	var folded strings.Builder
	folded.WriteString("dn: cn=huge,dc=x\ncn: huge\ndescription: ")
	for i := 0; i < 200; i++ {
		folded.WriteString(strings.Repeat("y", 1000) + "\n ")
	}
	folded.WriteString("end")
	l := []c21Rec{
		c21Plain("base", "dn: dc=x\nobjectClass: organization\ndc: x", "dc=x", "objectClass", "organization", "dc", "x"),
		c21Plain("plain", "dn: cn=a,dc=x\nobjectClass: person\ncn: a\nsn: A", "cn=a,dc=x", "objectClass", "person", "cn", "a", "sn", "A"),
		c21Plain("base64", "dn: cn=b,dc=x\ncn: b\ndescription:: "+b64(" lead\n\x00\xff")+"\nsn::"+b64("é"), "cn=b,dc=x", "cn", "b", "description", " lead\n\x00\xff", "sn", "é"),
		c21Plain("folded", "dn: cn=fo\n lded,d\n c=x\ncn: folded\ndescription: one\n  two\n  three\n four", "cn=folded,dc=x", "cn", "folded", "description", "one two threefour"),
		c21Plain("comments", "# first\ndn: cn=com,dc=x\n# second\n  continued: x\ncn: com\n#dn: cn=no,dc=x\n#\ndescription: # no comment\nsn: x # y", "cn=com,dc=x", "cn", "com", "description", "# no comment", "sn", "x # y"),
		c21Plain("spaces", "dn:cn=sp,dc=x\ncn:sp\ndescription:    much\nsn: trail  ", "cn=sp,dc=x", "cn", "sp", "description", "much", "sn", "trail  "),
		c21Plain("values", "dn: cn=v,dc=x\ndescription: 1\ncn: v\ndescription: 2\nsn: s\ndescription: 3\ndescription: 2", "cn=v,dc=x", "cn", "v", "description", "1", "description", "2", "description", "3", "description", "2", "sn", "s"),
		c21Plain("colons", "dn: cn=c:c,dc=x\ncn: c:c\ndescription: :x\nsn: a: b :: c\nlabeledURI: <http://x/>\ndescription: <no file", "cn=c:c,dc=x", "cn", "c:c", "description", ":x", "description", "<no file", "sn", "a: b :: c", "labeledURI", "<http://x/>"),
		c21Plain("unicode", "dn: cn=Ünï,dc=x\ncn: Ünï\nsn: ß\ndisplayName;lang-de: Ö", "cn=Ünï,dc=x", "cn", "Ünï", "sn", "ß", "displayName;lang-de", "Ö"),
		c21Plain("base64 name", "dn:: "+b64("cn=é,dc=x")+"\ncn:: "+b64("é"), "cn=é,dc=x", "cn", "é"),
		c21Plain("crlf", "dn: cn=cr,dc=x\r\ncn: cr\r\ndescription: a\r\n b\r\nsn: S\r", "cn=cr,dc=x", "cn", "cr", "description", "ab", "sn", "S"),
		c21Plain("upper", "dn: CN=UP,DC=X\nCN: UP\nobjectclass: Person", "cn=up,dc=x", "cn", "UP", "objectclass", "Person"),
		c21Plain("password", "dn: cn=pw,dc=x\nuserPassword: secret\ncn: pw\nUSERPASSWORD:: "+b64("other"), "cn=pw,dc=x", "cn", "pw"),
		c21Plain("long", "dn: cn=long,dc=x\ncn: long\ndescription: "+big, "cn=long,dc=x", "cn", "long", "description", big),
		c21Plain("long folded", folded.String(), "cn=huge,dc=x", "cn", "huge", "description", strings.Repeat("y", 200000)+"end"),
		c21Plain("two records", "dn: cn=t1,dc=x\ncn: t1\n\n\n\ndn: cn=t2,dc=x\ncn: t2", "", ""),
		c21Plain("comment at the end", "dn: cn=ce,dc=x\ncn: ce\n# the end", "cn=ce,dc=x", "cn", "ce"),
		c21Plain("folded comment at the end", "dn: cn=cf,dc=x\n# in the\n  middle\ncn: cf\n#\n  at the end", "cn=cf,dc=x", "cn", "cf"),
		{name: "variables", text: "dn: cn=t,{{.BaseDN}}\ncn: t\nmail: t@{{.MailDomain}}\nou: {{ .Company }}\nsn: {{.Extra}}",
			ents: func(f *c21File) []dir.SeedEntry {
				return []dir.SeedEntry{dir.E("cn=t,dc=x", "cn", "t", "mail", "t@"+f.mail, "ou", f.company, "sn", "more")}
			}},
		{name: "numbers", text: "dn: cn=n,dc=x\ncn: n\nuidNumber: {{AutoIncrement}}\ngidNumber: {{AutoIncrement}}",
			ents: func(f *c21File) []dir.SeedEntry {
				f.auto += 2
				return []dir.SeedEntry{dir.E("cn=n,dc=x", "cn", "n", "uidNumber", fmt.Sprint(f.auto-1), "gidNumber", fmt.Sprint(f.auto))}
			}},
		{name: "number from", text: "dn: cn=m,dc=x\ncn: m\nuidNumber: {{AutoIncrement 5000}}\ngidNumber: {{AutoIncrement}}",
			ents: func(f *c21File) []dir.SeedEntry {
				f.auto = 5001
				return []dir.SeedEntry{dir.E("cn=m,dc=x", "cn", "m", "uidNumber", "5000", "gidNumber", "5001")}
			}},
		{name: "number zero", text: "dn: cn=m0,dc=x\ncn: m0\nuidNumber: {{AutoIncrement 0}}\ngidNumber: {{AutoIncrement}}",
			ents: func(f *c21File) []dir.SeedEntry {
				f.auto = 1
				return []dir.SeedEntry{dir.E("cn=m0,dc=x", "cn", "m0", "uidNumber", "0", "gidNumber", "1")}
			}},
		{name: "many numbers", text: "dn: cn=mn,dc=x\ncn: mn" + strings.Repeat("\nuidNumber: {{AutoIncrement}}", 25),
			ents: func(f *c21File) []dir.SeedEntry {
				e := dir.E("cn=mn,dc=x", "cn", "mn")
				for i := 0; i < 25; i++ {
					f.auto++
					e.Attrs = addVal(e.Attrs, "uidNumber", fmt.Sprint(f.auto))
				}
				return []dir.SeedEntry{e}
			}},
		{name: "company", text: "{{WithCompany \"Acme\" -}}\ndn: ou={{.Company}},dc=x\nou: {{.Company}}\n{{- /* nothing */}}\ncn:: {{formatAsBase64 \" x\"}}",
			ents: func(f *c21File) []dir.SeedEntry {
				f.company = "Acme"
				return []dir.SeedEntry{dir.E("ou=Acme,dc=x", "ou", "Acme", "cn", " x")}
			}},
		{name: "other variables", text: "{{WithMailDomain \"other.test\"}}{{WithBaseDN \"ou=far,dc=x\"}}dn: cn=ov,{{.BaseDN}}\ncn: ov\nmail: ov@{{.MailDomain}}\nou: {{.Company}}{{WithBaseDN \"dc=x\"}}",
			ents: func(f *c21File) []dir.SeedEntry {
				f.mail = "other.test"
				return []dir.SeedEntry{dir.E("cn=ov,ou=far,dc=x", "cn", "ov", "mail", "ov@other.test", "ou", f.company)}
			}},
		{name: "range", text: "{{range $i, $n := (printf \"%s\" \"ab\") | printf \"%s\" | len | printf \"%*d\" 3 | printf \"%s\"| slice \"pq\" 0 | printf \"%s\" | printf \"%s\" }}{{end}}dn: cn=r,dc=x\ncn: r", bad: true, ents: none},
		{name: "conditional", text: "dn: cn=if,dc=x\ncn: if\n{{if eq .Company \"Acme\"}}sn: yes{{else}}sn: no{{end}}",
			ents: func(f *c21File) []dir.SeedEntry {
				v := "no"
				if f.company == "Acme" {
					v = "yes"
				}
				return []dir.SeedEntry{dir.E("cn=if,dc=x", "cn", "if", "sn", v)}
			}},
		{name: "template in comment", text: "# {{ broken\n#{{.\ndn: cn=tc,dc=x\ncn: tc", ents: func(*c21File) []dir.SeedEntry { return []dir.SeedEntry{dir.E("cn=tc,dc=x", "cn", "tc")} }},
		{name: "only comment", text: "# nothing here\n#\n  more", ents: none},
		{name: "blank lines", text: "\n\n", ents: none},
		{name: "empty value", text: "dn: cn=ev,dc=x\ncn: ev\nsn: ", maybe: true, ents: func(*c21File) []dir.SeedEntry { return []dir.SeedEntry{dir.E("cn=ev,dc=x", "cn", "ev", "sn", "")} }},
		{name: "empty value without space", text: "dn: cn=ew,dc=x\ncn: ew\nsn:", maybe: true, ents: func(*c21File) []dir.SeedEntry { return []dir.SeedEntry{dir.E("cn=ew,dc=x", "cn", "ew", "sn", "")} }},
		{name: "version", text: "version: 1", ents: none, first: true},
		{name: "version glued", text: "version: 1", ents: none, first: true, glue: true},

		{name: "no name", text: "cn: nobody\nsn: x", bad: true, ents: none},
		{name: "only name", text: "dn: cn=only,dc=x", bad: true, ents: none},
		{name: "no colon", text: "dn: cn=nc,dc=x\ncn: nc\nnonsense", bad: true, ents: none},
		{name: "bad base64", text: "dn: cn=bb,dc=x\ncn: bb\nsn:: ****", bad: true, ents: none},
		{name: "add record", text: "dn: cn=ar,dc=x\nchangetype: add\ncn: ar", bad: true, ents: none},
		{name: "delete record", text: "dn: cn=a,dc=x\nchangetype: delete", bad: true, ents: none},
		{name: "modify record", text: "dn: cn=a,dc=x\nchangetype: modify\nreplace: sn\nsn: Z\n-", bad: true, ents: none},
		{name: "rename record", text: "dn: cn=a,dc=x\nchangetype: modrdn\nnewrdn: cn=z\ndeleteoldrdn: 1", bad: true, ents: none},
		{name: "template syntax", text: "dn: cn=ts,dc=x\ncn: {{ts", bad: true, ents: none},
		{name: "template function", text: "dn: cn=tf,dc=x\ncn: {{nothing}}", bad: true, ents: none},
		{name: "template execution", text: "dn: cn=te,dc=x\ncn: {{.BaseDN.Foo}}", bad: true, ents: none},
		{name: "template end", text: "dn: cn=tx,dc=x\ncn: tx{{end}}", bad: true, ents: none},
		{name: "missing file", text: "dn: cn=mf,dc=x\ncn:: {{formatAsFileBase64 \"none\"}}", bad: true, ents: none},
		{name: "overlong line", text: "dn: cn=ol,dc=x\ncn: ol\ndescription: " + strings.Repeat("z", 70000), maybe: true, ents: func(*c21File) []dir.SeedEntry {
			return []dir.SeedEntry{dir.E("cn=ol,dc=x", "cn", "ol", "description", strings.Repeat("z", 70000))}
		}},
		{name: "duplicate", text: "dn: cn=dup,dc=x\ncn: dup\n\ndn: CN=Dup,dc=X\ncn: dup\nsn: other", bad: true, ents: none},
		{name: "bad attribute", text: "dn: cn=ba,dc=x\ncn: ba\ns n: x", bad: true, ents: none},
		{name: "bad version", text: "version: 7", bad: true, ents: none},
	}
	for i := range l {
		if l[i].name == "two records" {
			l[i].ents = func(*c21File) []dir.SeedEntry {
				return []dir.SeedEntry{dir.E("cn=t1,dc=x", "cn", "t1"), dir.E("cn=t2,dc=x", "cn", "t2")}
			}
		}
	}
	// For long files and folders of many files.
	c21Few = len(l)
	for i := 0; i < 1200; i++ {
		cn := fmt.Sprintf("m%d", i)
		dn := fmt.Sprintf("cn=%s,ou=u%d,dc=x", cn, i%7)
		l = append(l, c21Plain(cn, "dn: "+dn+"\ncn: "+cn+"\nuid: "+strings.Repeat(cn, 1+i%50), dn, "cn", cn, "uid", strings.Repeat(cn, 1+i%50)))
	}
	return l
}

// c21Few is the number of records that are combined with each other.
var c21Few int

// Kinds of places the data can be in.
var c21Places = []string{"file", "folder", "folder/", "folder[1]", "fol*der", "folder with noise", "folder with broken link", "folder with directory", "folder of odd names"}

type c21Case struct {
	Recs  []int `json:"recs"`
	Split int   `json:"split"` // bit i: a new file begins after record i; ignored for a single file
	Place int   `json:"place"`
	NoEnd bool  `json:"noend,omitempty"` // no line end at the end of the files
	Each  bool  `json:"each,omitempty"`  // every record in a file of its own
	Bare  bool  `json:"bare,omitempty"`  // nothing configured about templates
}

func (k c21Case) String() string {
	all := c21Recs()
	var l []string
	for i, r := range k.Recs {
		if i == 10 {
			l = append(l, fmt.Sprintf("and so on, %d records, each in a file: %v", len(k.Recs), k.Each))
			break
		}
		s := all[r].name
		if k.Place > 0 && k.Split>>i&1 == 1 && i+1 < len(k.Recs) {
			s += " | next file"
		}
		l = append(l, s)
	}
	return fmt.Sprintf("%s (no line end %v, default variables %v): %s", c21Places[k.Place], k.NoEnd, k.Bare, strings.Join(l, "; "))
}

const c21Svc = "dn: cn=svc,dc=x\ncn: svc\nuserPassword: svc"

// c21Read reads the whole directory as the service user.
func c21Read(s *wire.Srv) (string, error) {
	cl := s.Dial()
	defer cl.Close()
	if r := cl.Bind("cn=svc,dc=x", "svc"); r.Code != 0 {
		return "", fmt.Errorf("bind of the service user: %d %s", r.Code, bad(r))
	}
	r := cl.Do(wire.SearchOp(dir.Base, model.ScopeSub, 0, false, ber.Cons(0xa2, wire.FEq("cn", "no such value")), nil))
	if r.Code != 0 {
		return "", fmt.Errorf("search: %d %s", r.Code, bad(r))
	}
	return model.CanonWire(r.Entries), nil
}

// expected gives the content, and whether loading has to fail or may fail.
func (k c21Case) expected(all []c21Rec) (content string, fail, may bool) {
	fresh := func() *c21File {
		if k.Bare {
			return &c21File{company: "Default", mail: idm.DefaultMailDomain, auto: 1000}
		}
		return &c21File{company: "Corp", mail: "mail.test", auto: 1000}
	}
	f := fresh()
	var es []*model.Entry
	names := map[string]bool{}
	for i, q := range k.Recs {
		r := all[q]
		if i > 0 && k.Place > 0 && k.Split>>(i-1)&1 == 1 {
			f = fresh()
		}
		fail = fail || r.bad
		may = may || r.maybe
		if r.first && i > 0 {
			// Behind records, or at the beginning of a further file of a folder.
			onlyBlank := true
			for _, p := range k.Recs[:i] {
				if n := all[p].name; n != "only comment" && n != "blank lines" {
					onlyBlank = false
				}
			}
			if !onlyBlank {
				may = true
				if k.Place == 0 || k.Split>>(i-1)&1 == 0 {
					fail = true
				}
			}
		}
		for _, e := range r.ents(f) {
			dn, _ := model.ParseDN(e.DN)
			if names[dn.Key()] {
				fail = true
			}
			names[dn.Key()] = true
			es = append(es, &model.Entry{DN: dn, Attrs: e.Attrs})
		}
	}
	switch c21Places[k.Place] {
	case "folder with broken link", "folder with directory":
		fail = true
	}
	return model.CanonEntries(es), fail, may
}

// write puts the data below d and returns the path to load.
func (k c21Case) write(all []c21Rec, d string) string {
	os.RemoveAll(d)
	os.MkdirAll(d, 0o755)
	var files []string
	cur := ""
	for i, q := range k.Recs {
		if k.Each && i > 0 {
			files = append(files, cur)
			cur = ""
		}
		cur += all[q].text + "\n"
		if !all[q].glue {
			cur += "\n"
		}
		if k.Place > 0 && k.Split>>i&1 == 1 && i+1 < len(k.Recs) {
			files = append(files, cur)
			cur = ""
		}
	}
	files = append(files, cur)
	if k.NoEnd {
		for i := range files {
			files[i] = strings.TrimRight(files[i], "\n")
		}
	}
	place := c21Places[k.Place]
	if place == "file" {
		p := filepath.Join(d, "data.txt")
		writeFile(p, files[0])
		return p
	}
	name, _, _ := strings.Cut(place, " ")
	p := filepath.Join(d, strings.TrimRight(name, "/"))
	os.MkdirAll(p, 0o755)
	names := []string{"10-x.ldif", "2.ldif", "A b.ldif", "a.ldif"}
	if place == "folder of odd names" {
		names = []string{".hidden.ldif", ".ldif", "[x].y.ldif", "\xc3\xa9.ldif"}
	}
	for i, f := range files {
		if k.Each {
			names = append(names, fmt.Sprintf("%d.ldif", i*7919%10007))
		}
		writeFile(filepath.Join(p, names[i]), f)
	}
	switch place {
	case "folder with noise":
		writeFile(filepath.Join(p, "README.txt"), "no ldif")
		writeFile(filepath.Join(p, "x.ldif~"), "dn: cn=backup,dc=x\ncn: backup\n")
		writeFile(filepath.Join(p, "x.LDIF.bak"), "dn: cn=backup,dc=x\ncn: backup\n")
		os.MkdirAll(filepath.Join(p, "sub"), 0o755)
		writeFile(filepath.Join(p, "sub", "x.ldif"), "dn: cn=below,dc=x\ncn: below\n")
	case "folder with broken link":
		os.Symlink(filepath.Join(p, "nowhere"), filepath.Join(p, "link.ldif"))
	case "folder with directory":
		os.MkdirAll(filepath.Join(p, "dir.ldif"), 0o755)
	case "folder/":
		return p + "/"
	}
	return p
}

func c21Judge(c *run.Ctx, w int, k c21Case, all []c21Rec) string {
	want, fail, may := k.expected(all)
	d := filepath.Join(c.Scratch, fmt.Sprintf("c21-%d", w))
	p := k.write(all, filepath.Join(d, "data"))
	cfg := ldifConfig(filepath.Join(d, "cfg"), "", c21Svc)
	cfg.LDIFMain = p
	if !k.Bare {
		cfg.LDIFDefaultCompany = "Corp"
		cfg.LDIFDefaultMailDomain = "mail.test"
	}
	cfg.LDIFTemplateExtraVars = map[string]interface{}{"Extra": "more"}
	s, err := wire.Start(cfg)
	if err != nil {
		if s != nil {
			s.Stop()
		}
		if !fail && !may {
			return "loading failed: " + err.Error()
		}
		c.Outcome("refused")
		return ""
	}
	defer s.Stop()
	got, err := c21Read(s)
	if err != nil {
		return err.Error()
	}
	if fail {
		return "loaded although the data is broken, served: " + trim(got, 300)
	}
	if got != want {
		return "content differs: " + trim(model.Diff(got, want), 600)
	}
	c.Outcome(fmt.Sprintf("served %d", strings.Count(want, "\n")))
	if len(k.Recs) > 1 {
		c.Nontrivial.Add(1)
	}
	return ""
}

func init() {
	register(&run.Check{
		ID: "C21", Level: "exploration",
		Rule:   "All sequences of up to two records (thorough: three; quick: three at a stride) over valid and broken records, templates and comments, as a single file and as a folder divided into files at every position; all sequences of up to two records in every kind of place and without a final line end; 1200 records in one file and in as many files. The server is started and everything it serves is compared. Non-trivial are served sets of more than one record.",
		Assume: []string{"names are compared as text without regard to case", "a version line at the beginning of a further file, an attribute without a value and an overlong line may be taken or refused"},
		Explore: func(c *run.Ctx) {
			all := c21Recs()
			n := c21Few
			var cases []c21Case
			for _, m := range []int{10, 100, 1000, 1200} {
				var l []int
				for i := 0; i < m; i++ {
					l = append(l, c21Few+i)
				}
				cases = append(cases, c21Case{Recs: l}, c21Case{Recs: l, Place: 1}, c21Case{Recs: l, Place: 1, Each: true}, c21Case{Recs: append(l, l[0])}, c21Case{Recs: append(l, l[0]), Place: 1, Each: true})
			}
			for i := 0; i < n; i++ {
				for p := range c21Places {
					cases = append(cases, c21Case{Recs: []int{i}, Place: p}, c21Case{Recs: []int{i}, Place: p, NoEnd: true})
				}
				for j := 0; j < n; j++ {
					for p := range c21Places {
						if p == 0 {
							cases = append(cases, c21Case{Recs: []int{i, j}, Place: p}, c21Case{Recs: []int{i, j}, Place: p, NoEnd: true})
							if strings.Contains(all[i].text+all[j].text, "{{") {
								cases = append(cases, c21Case{Recs: []int{i, j}, Bare: true}, c21Case{Recs: []int{i, j}, Bare: true, Place: 1, Split: 1})
							}
						} else if p == 1 || c.Thorough || (i+j+p)%5 == 0 {
							cases = append(cases, c21Case{Recs: []int{i, j}, Place: p}, c21Case{Recs: []int{i, j}, Place: p, Split: 1}, c21Case{Recs: []int{i, j}, Place: p, Split: 1, NoEnd: true})
						}
					}
					for k := 0; k < n; k++ {
						if !c.Thorough && (i+2*j+3*k)%37 != 0 {
							continue
						}
						cases = append(cases, c21Case{Recs: []int{i, j, k}})
						for s := 0; s < 4; s++ {
							cases = append(cases, c21Case{Recs: []int{i, j, k}, Place: 1, Split: s})
						}
					}
				}
			}
			c.Par(len(cases), func(w, i int) {
				if c.Expired() || c.Enough() {
					return
				}
				k := cases[i]
				c.Announce(w, k)
				c.Evals.Add(1)
				if what := c21Judge(c, w, k, all); what != "" {
					c.Violation(k.String(), k.String()+": "+what, k)
				}
				if i%3001 == 5 {
					c.Sample(k.String())
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c21Case) string { return c21Judge(c, w, k, c21Recs()) }),
	})
}
