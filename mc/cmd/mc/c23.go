package main

import (
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// c23Case is one input of the user generator, or one call of the password generator.
type c23Case struct {
	Lines  []quoted `json:"lines,omitempty"`
	End    string   `json:"end,omitempty"` // how lines end: "" (LF), "crlf", "none" (last line without end)
	File   bool     `json:"file,omitempty"`
	Scheme string   `json:"scheme,omitempty"`
	Secret quoted   `json:"secret,omitempty"`
	How    string   `json:"how,omitempty"` // option of the password generator
	N      bool     `json:"n,omitempty"`
	Level  string   `json:"level,omitempty"` // required strength
}

// quoted is a string of any bytes that survives JSON.
type quoted string

func (q quoted) MarshalText() ([]byte, error) { return []byte(strconv.QuoteToASCII(string(q))), nil }
func (q *quoted) UnmarshalText(b []byte) error {
	s, err := strconv.Unquote(string(b))
	*q = quoted(s)
	return err
}

const c23Domain = "lg.local"

// c23Strong is strong enough for every level; the others used with a level are not strong enough for the lowest.
const c23Strong = "correct horse battery staple Xq7"

var (
	c23PlainName = regexp.MustCompile(`^[a-zA-Z0-9_.é=@-]+( [a-zA-Z0-9]+)*$`)
	c23Digits    = regexp.MustCompile(`[0-9]+`)
	c23Plain     = regexp.MustCompile(`^[0-9]+$`)
)

// c23User is the expectation about one line.
type c23User struct {
	line     int
	name, pw string
	uid, gid *int64
	mail     []string
	cn       string
	gn, sn   string
}

// c23Model gives the users, the lines that have to be refused, and the ones that may be refused.
func c23Model(k c23Case) (us []c23User, bad, odd map[int]bool) {
	bad, odd = map[int]bool{}, map[int]bool{}
	names := map[string]int{}
	for i, q := range k.Lines {
		n := i + 1
		l := strings.TrimSpace(string(q))
		if l == "" || l[0] == '#' {
			continue
		}
		f := strings.Split(l, ":")
		if len(f) < 7 {
			bad[n] = true
			continue
		}
		if len(f) > 7 {
			odd[n] = true
		}
		if len(l) > 60000 {
			odd[n] = true
		}
		u := c23User{line: n, name: f[0], pw: f[1]}
		if u.name == "" {
			bad[n] = true
		}
		if !c23PlainName.MatchString(u.name) {
			odd[n] = true
		}
		if k.Level != "" && u.pw != "" && u.pw != c23Strong {
			bad[n] = true
		}
		if u.pw == "" {
			u.pw = u.name
		}
		if k.Scheme != "{ARGON2}" && strings.HasPrefix(u.pw, "{") || strings.HasPrefix(u.name, "{") || strings.HasPrefix(u.pw, " ") || strings.Contains(l, "{{") || strings.ContainsAny(l, "\x00\r") {
			odd[n] = true
		}
		for j, p := range []**int64{&u.uid, &u.gid} {
			t := f[2+j]
			if t == "" {
				continue
			}
			v, err := strconv.ParseInt(t, 10, 64)
			if err != nil {
				bad[n] = true
				continue
			}
			if !c23Plain.MatchString(t) || v > 1<<62 {
				odd[n] = true
			}
			*p = &v
		}
		g := strings.Split(f[4], ",")
		if f[4] == "" {
			u.cn = u.name
		} else {
			u.cn = g[0]
			if a, b, ok := strings.Cut(g[0], " "); ok {
				u.gn, u.sn = a, b
			}
		}
		for _, m := range g[1:] {
			if a, b, ok := strings.Cut(m, "@"); ok && a != "" && b != "" && !strings.ContainsAny(m, " \"()") && !strings.Contains(b, "@") && !strings.HasPrefix(b, "-") {
				u.mail = append(u.mail, m)
			}
		}
		key := strings.ToLower(u.name)
		if _, ok := names[key]; ok {
			odd[n] = true
		}
		names[key] = n
		us = append(us, u)
	}
	for _, u := range us {
		// No numbers are left behind the largest one.
		for _, p := range []*int64{u.uid, u.gid} {
			if p != nil && *p > 1<<62 {
				for _, v := range us {
					odd[v.line] = true
				}
			}
		}
	}
	return us, bad, odd
}

func values(e wire.Entry, name string) (l []string) {
	for _, a := range e.Attrs {
		if strings.EqualFold(a.Name, name) {
			for _, v := range a.Values {
				l = append(l, string(v))
			}
		}
	}
	return l
}

func c23Is(e wire.Entry, name string, want ...string) string {
	got := values(e, name)
	g, w := append([]string{}, got...), append([]string{}, want...)
	for _, l := range [][]string{g, w} {
		for i := range l {
			l[i] = strings.TrimSpace(l[i])
		}
		sort.Strings(l)
	}
	if strings.Join(g, "\x01") != strings.Join(w, "\x01") || len(g) != len(w) {
		return fmt.Sprintf("%s of %q is %q, not %q", name, e.DN, got, want)
	}
	return ""
}

func c23Judge(c *run.Ctx, w int, k c23Case) string {
	d := filepath.Join(c.Scratch, fmt.Sprintf("c23-%d", w))
	os.MkdirAll(d, 0o755)
	if k.How != "" {
		return c23Passwd(c, d, k)
	}
	c.Evals.Add(1)
	eol := "\n"
	if k.End == "crlf" {
		eol = "\r\n"
	}
	text := ""
	for i, l := range k.Lines {
		if i > 0 {
			text += eol
		}
		text += string(l)
	}
	if k.End != "none" {
		text += eol
	}
	level := k.Level
	if level == "" {
		level = "0"
	}
	args := []string{"gen", "newusers", "--min-password-strength", level, "--argon2-memory", "8", "--argon2-iterations", "1", "--argon2-lanes", "1", "--password-scheme", k.Scheme}
	in := text
	if k.File {
		writeFile(filepath.Join(d, "in"), text)
		args, in = append(args, filepath.Join(d, "in")), ""
	} else {
		args = append(args, "-")
	}
	out, errs, code := idmd(in, args...)
	us, bad, odd := c23Model(k)
	if crashed(errs, code) {
		return "crashed: " + trim(errs, 300)
	}
	if code != 0 {
		if len(bad)+len(odd) == 0 {
			return fmt.Sprintf("refused with %d: %s", code, trim(errs, 300))
		}
		for _, n := range c23Digits.FindAllString(errs, -1) {
			i, _ := strconv.Atoi(n)
			if bad[i] || odd[i] {
				c.Outcome("refused")
				return ""
			}
		}
		return "refused without naming the line: " + trim(errs, 300)
	}
	if len(bad) > 0 {
		return fmt.Sprintf("accepted although lines %v are broken", bad)
	}
	// Serve the output.
	cfg := ldifConfig(filepath.Join(d, "cfg"), out, c21Svc)
	cfg.LDIFDefaultCompany = "Corp"
	cfg.LDIFDefaultMailDomain = c23Domain
	s, err := wire.Start(cfg)
	if err != nil {
		if s != nil {
			s.Stop()
		}
		if len(us) == 0 {
			c.Outcome("nothing")
			return ""
		}
		return "the output is not served: " + err.Error()
	}
	defer s.Stop()
	cl := s.Dial()
	defer cl.Close()
	cl.Bind("cn=svc,dc=x", "svc")
	r := cl.Do(wire.SearchOp(dir.Base, model.ScopeSub, 0, false, wire.FPresent("objectClass"), nil))
	if r.Code != 0 && len(us) > 0 {
		return fmt.Sprintf("search: %d", r.Code)
	}
	if len(r.Entries) != len(us) {
		return fmt.Sprintf("%d entries for %d lines", len(r.Entries), len(us))
	}
	given := map[int64]bool{}
	for _, u := range us {
		for _, p := range []*int64{u.uid, u.gid} {
			if p != nil {
				given[*p] = true
			}
		}
	}
	autoU, autoG := map[int64]bool{}, map[int64]bool{}
	for _, u := range us {
		var e *wire.Entry
		for i := range r.Entries {
			if v := values(r.Entries[i], "uid"); len(v) == 1 && v[0] == u.name {
				e = &r.Entries[i]
			}
		}
		if e == nil {
			return fmt.Sprintf("no entry for %q", u.name)
		}
		dn, err := model.ParseDN(e.DN)
		want, _ := model.ParseDN("uid=x,ou=Users,ou=Corp,dc=x")
		if err != nil || len(dn) != len(want) || dn[1:].Key() != want[1:].Key() || len(dn[0]) != 1 || dn[0][0].Type != "uid" || dn[0][0].Value != strings.ToLower(u.name) {
			return fmt.Sprintf("name of the entry of %q is %q", u.name, e.DN)
		}
		for _, s := range []string{
			c23Is(*e, "objectClass", "posixAccount", "top", "inetOrgPerson"), c23Is(*e, "mail", u.name+"@"+c23Domain), c23Is(*e, "mailAlternateAddress", u.mail...),
		} {
			if s != "" {
				return s
			}
		}
		if strings.TrimSpace(u.cn) != "" {
			if s := c23Is(*e, "cn", u.cn); s != "" {
				return s
			}
		}
		if u.gn != "" && strings.TrimSpace(u.sn) != "" {
			if s := c23Is(*e, "givenName", u.gn); s != "" {
				return s
			}
			if s := c23Is(*e, "sn", u.sn); s != "" {
				return s
			}
		}
		for _, x := range []struct {
			name string
			want *int64
			auto map[int64]bool
		}{{"uidNumber", u.uid, autoU}, {"gidNumber", u.gid, autoG}} {
			v := values(*e, x.name)
			if len(v) != 1 {
				return fmt.Sprintf("%s of %q is %q", x.name, e.DN, v)
			}
			n, err := strconv.ParseInt(v[0], 10, 64)
			if err != nil || x.want != nil && n != *x.want {
				return fmt.Sprintf("%s of %q is %q", x.name, e.DN, v)
			}
			if x.want == nil {
				if x.auto[n] || given[n] {
					return fmt.Sprintf("assigned %s %d of %q is in use", x.name, n, e.DN)
				}
				x.auto[n] = true
			}
		}
		if strings.HasPrefix(u.pw, "{") && (k.Scheme != "{ARGON2}" || u.pw == u.name) {
			continue // taken as a hash
		}
		if s := c23Binds(s, e.DN, u.pw); s != "" {
			return s
		}
	}
	c.Nontrivial.Add(1)
	c.Outcome(fmt.Sprintf("%d users", len(us)))
	return ""
}

// c23Binds checks that exactly pw is accepted.
func c23Binds(s *wire.Srv, dn, pw string) string {
	cl := s.Dial()
	defer cl.Close()
	for _, t := range []string{pw + "x", pw + " ", " " + pw, pw + "\n", strings.TrimSpace(pw), strings.ToUpper(pw), pw[:len(pw)-1], strings.TrimPrefix(pw, "{"), "{CLEARTEXT}" + pw} {
		if t == pw || t == "" {
			continue
		}
		if r := cl.Bind(dn, t); r.Code == 0 {
			return fmt.Sprintf("%q binds with %q instead of %q", dn, t, pw)
		} else if r.Code < 0 {
			return "bind: " + bad(r)
		}
	}
	if r := cl.Bind(dn, pw); r.Code != 0 {
		return fmt.Sprintf("%q does not bind with %q: %d", dn, pw, r.Code)
	}
	return ""
}

func c23Passwd(c *run.Ctx, d string, k c23Case) string {
	c.Evals.Add(1)
	secret := string(k.Secret)
	if strings.ContainsRune(secret, 0) && k.How != "-T" {
		return ""
	}
	args := []string{"gen", "passwd", "--argon2-memory", "8", "--argon2-iterations", "1", "--argon2-lanes", "1", "--password-scheme", k.Scheme}
	level := 0
	if k.Level != "" {
		level, _ = strconv.Atoi(k.Level)
	}
	args = append(args, "--min-password-strength", strconv.Itoa(level))
	switch k.How {
	case "-s":
		args = append(args, "-s", secret)
	case "-T":
		writeFile(filepath.Join(d, "secret"), secret)
		args = append(args, "-T", filepath.Join(d, "secret"))
	case "-g":
		args = append(args, "-g")
	case "both":
		args = append(args, "-g", "-s", secret)
	case "missing":
		args = append(args, "-T", filepath.Join(d, "no such file"))
	}
	if k.N {
		args = append(args, "-n")
	}
	out, errs, code := idmd("", args...)
	if crashed(errs, code) {
		return "crashed: " + trim(errs, 300)
	}
	fail := k.How == "both" || k.How == "missing" || k.How != "-g" && strings.TrimSpace(secret) == "" || k.Scheme != "{ARGON2}" && k.Scheme != "{CLEARTEXT}" && k.How != "-g" || level > 4
	if level > 0 && k.How != "-g" {
		// Only clear cases: a few letters are weak.
		if len(secret) > 3 {
			return ""
		}
		fail = true
	}
	if fail {
		if code == 0 {
			return fmt.Sprintf("succeeded with %q", trim(out, 100))
		}
		if strings.TrimSpace(errs) == "" || out != "" {
			return fmt.Sprintf("failed with output %q and message %q", trim(out, 100), trim(errs, 100))
		}
		c.Outcome("refused")
		return ""
	}
	if code != 0 {
		return fmt.Sprintf("failed with %d: %s", code, trim(errs, 300))
	}
	if !k.N {
		if !strings.HasSuffix(out, "\n") {
			return fmt.Sprintf("output %q does not end with a line end", out)
		}
		out = out[:len(out)-1]
	}
	c.Nontrivial.Add(1)
	pw := secret
	if k.How == "-g" {
		pw = out
		if len(pw) != 12 {
			return fmt.Sprintf("generated %q, not 12 letters", pw)
		}
		c.Outcome("generated")
	} else if k.Scheme == "{CLEARTEXT}" {
		if out != secret {
			return fmt.Sprintf("printed %q for the secret %q", out, secret)
		}
		c.Outcome("clear text")
		if strings.HasPrefix(pw, "{") {
			return ""
		}
	} else {
		c.Outcome("hashed")
		if !strings.HasPrefix(out, "{ARGON2}$argon2id$") || strings.ContainsAny(out, "\n\r ") {
			return fmt.Sprintf("printed %q", out)
		}
	}
	if strings.HasPrefix(out, "{") && k.How == "-g" {
		return "" // a generated secret may look like a scheme
	}
	s, err := wire.Start(ldifConfig(filepath.Join(d, "cfg"), "dn: cn=u,dc=x\ncn: u\nuserPassword:: "+base64.StdEncoding.EncodeToString([]byte(out))+"\n", c21Svc))
	if err != nil {
		return err.Error()
	}
	defer s.Stop()
	return c23Binds(s, "cn=u,dc=x", pw)
}

// c23Line makes a line of fields; missing ones are those of a plain user.
func c23Line(name, pw, uid, gid, gecos string) quoted {
	return quoted(strings.Join([]string{name, pw, uid, gid, gecos, "/home/x", "/bin/sh"}, ":"))
}

func c23Cases(thorough bool) (l []c23Case) {
	names := []string{"usr", "U2", "a b", "é", "a.b", "a=b", "a#b", "x@y", "-x", "x,y", "a+b", "<x", "<<.BaseDN>>", "{{.BaseDN}}", "{x}", "{SSHA}x", "", " lead", "t ", "a\"b", "a;b", "a\\b", "a\\2cb", "a\tb", "日本", "\xff", "a\x00b", "a\rb", strings.Repeat("n", 300), "#c", "uid=q"}
	pws := []string{"secret word", "", "p", " lead", "trail ", "{SSHA}abc", "{CLEARTEXT}x", "{ARGON2}x", "{{x}}", "a{{b", "<<x>>", "%s%d", "pé", "\xff\xfe", "a,b\\c\"", "\tt", "a\rb", strings.Repeat("p", 100), "< file", "x\x00y"}
	ids := []string{"", "0", "1", "1000", "1001", "1002", "5000", "-1", "+7", "007", "x", "1.5", "0x10", " 5", "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775808"}
	gecos := []string{"", "Full Name", "Full", "Full Middle Name", ",", "Full Name,b 5,a@b.com", "X,a@b.com,c@d.org,,555", "Y,u@lg.local", "Z,u@xlg.local,@,a@,@b,a b@c.com", " Lead Name", "N ", "a  b", "é ü", "{{.Company}}", "X,{{.Company}}@x.com", "<<.BaseDN>>", "%s", "< x", "a\\b\"", "X,a@b@c.com", "# x", "J D,j@-x", "\x00", "Ann Lee,Ann.Lee+Tag@Example.ORG,U@LG.LOCAL", "X,a.b@c-d.example"}
	schemes := []string{"{CLEARTEXT}", "{ARGON2}"}
	add := func(lines ...quoted) {
		for _, s := range schemes {
			l = append(l, c23Case{Lines: lines, Scheme: s})
		}
	}
	// Deviations of one and two fields of a single line.
	vocab := [][]string{names, pws, ids, ids, gecos}
	for a := range vocab {
		for b := a; b < len(vocab); b++ {
			for _, x := range vocab[a] {
				for j, y := range vocab[b] {
					if a == b && j > 0 {
						break
					}
					f := []string{"usr", "secret", "77", "88", "Full Name"}
					f[b] = y
					f[a] = x
					k := c23Case{Lines: []quoted{c23Line(f[0], f[1], f[2], f[3], f[4])}}
					if thorough || a == b {
						add(k.Lines...)
					} else {
						k.Scheme = schemes[(len(l)/2)%2]
						if b == 1 || len(l)%8 == 0 {
							l = append(l, k)
						} else {
							l = append(l, c23Case{}) // keeps the count
						}
					}
				}
			}
		}
	}
	kept := l[:0]
	for _, k := range l {
		if k.Lines != nil {
			kept = append(kept, k)
		}
	}
	l = kept
	// Several lines.
	lines := []quoted{
		c23Line("one", "pw one", "", "", "One Name"), c23Line("two", "", "", "2000", ""), c23Line("three", "pw3", "1001", "", "Three"),
		c23Line("four", "pw4", "9223372036854775807", "0", "F"), c23Line("five", "pw5", "-9223372036854775808", "5", "F Five,x@y.z"), "# comment", "", "six:pw", c23Line("ONE", "pw", "x", "", ""),
	}
	// Given numbers that would be assigned otherwise, in either place and before or after.
	for _, u := range []string{"", "1001", "1002"} {
		for _, g := range []string{"", "1001", "1002", "1003"} {
			add(c23Line("o", "pw o", u, g, "O"), c23Line("p", "pw p", "", "", "P"), c23Line("q", "pw q", "", "1001", "P"))
			add(c23Line("p", "pw p", "", "", "P"), c23Line("o", "pw o", u, g, "O"), c23Line("q", "pw q", "1001", "", "P"))
		}
	}
	if thorough {
		lines = append(lines, "   ", c23Line("seven", "pw7", "1002", "1003", "S"), c23Line("eight", "pw8", "", "", "E,a@b.c")+":extra:fields", "\t# x", c23Line("a,b", "x", "", "", ""), quoted(strings.Repeat("y", 70000)), c23Line("long", "p", "", "", strings.Repeat("g", 65000)), c23Line("nine", "pw", "", "1001", "")+" ", c23Line("ten", "pw", "1001", "1001", ""))
	} else {
		for _, x := range []quoted{quoted(strings.Repeat("y", 70000)), c23Line("long", "p", "", "", strings.Repeat("g", 65000)), ":::::::", "::::::", "a::::::", "x:y:1:2:z:d", "eight:p8:::E:d:s:extra:fields"} {
			add(x)
			add(lines[0], x, lines[1])
		}
	}
	for i, a := range lines {
		add(a)
		for j, b := range lines {
			add(a, b)
			for m, x := range lines {
				k := c23Case{Lines: []quoted{a, b, x}, Scheme: schemes[(i+j+m)%2]}
				k.End = []string{"", "crlf", "none"}[(i*2+j*3+m)%3]
				k.File = (i+j)%2 == 1
				l = append(l, k)
			}
		}
	}
	for _, a := range [][]quoted{{c23Line("one", "abc", "1", "2", "O")}, {c23Line("one", c23Strong, "", "", "O"), c23Line("two", "12", "", "", "O")}, {c23Line("one", "", "", "", "O"), c23Line("two", c23Strong, "", "", "O"), "# x"}, {"", c23Line("one", c23Strong, "", "", "O"), "# c", c23Line("two", c23Strong, "", "", "T"), c23Line("three", "a", "", "", "O"), c23Line("four", c23Strong, "", "", "F")}} {
		for _, lv := range []string{"1", "2", "3", "4"} {
			for _, s := range schemes {
				l = append(l, c23Case{Lines: a, Scheme: s, Level: lv})
			}
		}
	}
	many := []quoted{}
	for i := 0; i < 150; i++ {
		many = append(many, c23Line(fmt.Sprintf("many%d", i), "p", []string{"", strconv.Itoa(1000 + i*3), "1100"}[i%3], []string{"", "1101"}[i%2], ""))
	}
	add(many...)
	// Passwords.
	secrets := []quoted{"secret", "a", "", " ", "\n", " lead", "trail ", "%s%d%%", "two\nlines", "end\n", "pé", "\xff", "{SSHA}x", "{x", "-x", "x\x00y", quoted(strings.Repeat("s", 500)), "$1$", "\\", "\t"}
	for _, s := range secrets {
		for _, how := range []string{"-s", "-T"} {
			for _, sc := range append(schemes, "{SSHA}", "") {
				for _, n := range []bool{false, true} {
					if sc == "" && how == "-s" {
						continue
					}
					if sc == "" {
						sc = "{MD5}"
					}
					l = append(l, c23Case{How: how, Secret: s, Scheme: sc, N: n})
				}
			}
		}
	}
	for i := 0; i < 8; i++ {
		for _, sc := range append(schemes, "{SSHA}") {
			l = append(l, c23Case{How: "-g", Scheme: sc, N: i%2 == 0})
		}
	}
	for _, sc := range schemes {
		for _, lv := range []string{"1", "3", "4", "5"} {
			for _, s := range []quoted{"a", "abc", "12"} {
				l = append(l, c23Case{How: "-s", Secret: s, Scheme: sc, Level: lv})
			}
		}
		l = append(l, c23Case{How: "both", Secret: "x", Scheme: sc}, c23Case{How: "missing", Scheme: sc})
	}
	return l
}

func init() {
	register(&run.Check{
		ID: "C23", Level: "exploration",
		Rule:   "User generator inputs of one line with all one-field deviations and two-field deviations (quick: part of them) over vocabularies of names, passwords, numbers and full names; all inputs of up to three lines over a vocabulary of lines; both schemes. Every output is served and compared with the expectation, each user binds with the password and a list of wrong ones. Password generator calls with all secrets, schemes and options. Non-trivial are the accepted ones.",
		Assume: []string{"unusual names, passwords and numbers may be refused, naming the line", "clear-text passwords that begin with a scheme are taken as hashes", "surrounding spaces of full names are not compared"},
		Explore: func(c *run.Ctx) {
			cases := c23Cases(c.Thorough)
			c.Par(len(cases), func(w, i int) {
				if c.Expired() || c.Enough() {
					return
				}
				k := cases[i]
				c.Announce(w, k)
				if what := c23Judge(c, w, k); what != "" {
					s := keyOf(k)
					c.Violation(s, trim(s, 400)+": "+trim(what, 500), k)
				}
				if i%307 == 3 {
					c.Sample(trim(keyOf(k), 200))
				}
			})
		},
		Replay: replayOf(c23Judge),
	})
}
