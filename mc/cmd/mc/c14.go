package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/libregraph/idm/server"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/vsched"
	"idmverif/lib/wire"
)

func init() {
	register(&run.Check{
		ID:    "C14",
		Level: "model_checking",
		Rule:  "Part one: from every served state, every sequence up to the depth bound of replacing the main data and the service users by a valid or broken variant (an error at every line, duplicate names, template errors, missing and unreadable places), anew or in place, and reloading, for a file and for a folder, and fifty reloads of two variants in turn; after every reload everything that can be observed, by old and new connections, must be that of the variant in force. Part two: every schedule within the deviation bounds of a reload and one or two connections that search and bind; every answer must fit the old or the new data as a whole, never going back, and the new (or, if the reload fails, the old) after its end. Part three: servers with real listeners told to reload by signals, every variant between valid ones. States counts distinct observations; non-trivial are histories with a failing reload and schedules in which a request overlaps the reload.",
		Assume: []string{
			"Service users and main data may change one after the other when a reload succeeds.",
			"Reloads do not run at the same time as other reloads; the server has one goroutine for them.",
		},
		Explore: c14Explore,
		Replay:  replayOf(c14Judge),
	})
}

type c14Case struct {
	Place  string       `json:"place"`            // file or folder
	Keep   bool         `json:"keep,omitempty"`   // files are written in place
	Steps  [][2]string  `json:"steps"`            // names of main and service user variants, the first is served at the start
	Conns  [][]string   `json:"conns,omitempty"`  // requests during the last reload
	Devs   []vsched.Dev `json:"devs,omitempty"`   //
	Signal bool         `json:"signal,omitempty"` // real process
}

// c14Variant is what the main data or the service users can be.
type c14Variant struct {
	name    string
	files   map[string]string // folder: by name; file: "" only
	ents    []dir.SeedEntry   // nil: broken
	missing bool              // the place does not exist
	odd     string            // "directory": a directory in place of the file
}

func (v *c14Variant) valid() bool { return v.ents != nil }

func c14User(name, pw string, attrs ...string) dir.SeedEntry {
	return dir.E("uid="+name+",dc=x", append([]string{"objectClass", "person", "uid", name, "cn", "user " + name, "mail", name + "@x", "userPassword", pw}, attrs...)...)
}

// c14Swap is the entry of one user with the attributes of another.
func c14Swap(name, other, pw string, attrs ...string) dir.SeedEntry {
	e := c14User(other, pw, attrs...)
	e.DN = "uid=" + name + ",dc=x"
	return e
}

func c14Base() dir.SeedEntry { return dir.E("dc=x", "objectClass", "domain", "dc", "x") }

// c14Sets are the valid main data.
func c14Sets() map[string][]dir.SeedEntry {
	return map[string][]dir.SeedEntry{
		"A": {c14Base(), c14User("u1", "old", "sn", "a1"), c14User("u2", "two", "sn", "a2"), c14User("gone", "gone", "sn", "a3")},
		"B": {c14Base(), c14User("u1", "new", "sn", "b1"), c14User("u2", "two", "sn", "b2"), c14User("come", "come", "sn", "b3"), c14User("more", "more", "sn", "b4")},
		"C": {c14Base(), c14User("u1", "old", "sn", "c1")},
		// As many entries of the same names as A, but with each other's values.
		"D": {c14Base(), c14Swap("u1", "gone", "new", "sn", "b4"), c14Swap("u2", "u1", "two", "sn", "a1"), c14Swap("gone", "u2", "gone", "sn", "a2")},
	}
}

func c14SvcSets() map[string][]dir.SeedEntry {
	s := func(n, pw string) dir.SeedEntry {
		return dir.E("cn="+n+",dc=x", "objectClass", "simpleSecurityObject", "cn", n, "userPassword", pw)
	}
	return map[string][]dir.SeedEntry{"a": {s("s1", "sold"), s("s2", "same")}, "b": {s("s1", "snew"), s("s2", "same"), s("s3", "three")}}
}

// c14Broken makes broken texts of a valid one.
func c14Broken(text string) map[string]string {
	m := map[string]string{}
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	for i := 0; i <= len(lines); i++ {
		l := append(append(append([]string{}, lines[:i]...), "no colon here"), lines[i:]...)
		m[fmt.Sprintf("bad line %d", i)] = strings.Join(l, "\n") + "\n"
	}
	first, _, _ := strings.Cut(text, "\n\n")
	m["duplicate"] = text + first + "\n\n"
	m["bad base64"] = text + "dn: cn=q,dc=x\ncn:: ****\n"
	m["template syntax"] = text + "dn: cn=q,dc=x\ncn: {{q\n"
	m["template execution"] = text + "dn: cn=q,dc=x\ncn: {{.BaseDN.Foo}}\n"
	m["template file"] = text + "dn: cn=q,dc=x\ncn:: {{formatAsFileBase64 \"none\"}}\n"
	m["change record"] = text + "dn: uid=u1,dc=x\nchangetype: delete\n"
	return m
}

// c14Split divides records into two files.
func c14Split(text string) (a, b string) {
	r := strings.SplitAfter(text, "\n\n")
	n := len(r) / 2
	return strings.Join(r[:n], ""), strings.Join(r[n:], "")
}

var c14Cache struct {
	once  sync.Once
	mains map[string][]*c14Variant
	svcs  []*c14Variant
}

func c14Load() {
	c14Cache.once.Do(func() {
		c14Cache.mains = map[string][]*c14Variant{"file": c14MakeMains("file"), "folder": c14MakeMains("folder")}
		c14Cache.svcs = c14MakeSvcs()
	})
}

func c14Mains(place string) []*c14Variant { c14Load(); return c14Cache.mains[place] }
func c14Svcs() []*c14Variant              { c14Load(); return c14Cache.svcs }

func c14MakeMains(place string) []*c14Variant {
	var l []*c14Variant
	sets := c14Sets()
	pack := func(name, text string, ents []dir.SeedEntry) {
		v := &c14Variant{name: name, ents: ents}
		if place == "file" {
			v.files = map[string]string{"": text}
		} else {
			a, b := c14Split(text)
			v.files = map[string]string{"10.ldif": a, "20.ldif": b}
		}
		l = append(l, v)
	}
	for _, n := range []string{"A", "B", "C", "D"} {
		pack(n, ldifText(sets[n]), sets[n])
	}
	br := c14Broken(ldifText(sets["B"]))
	for _, n := range run.SortedKeys(br) {
		pack("B "+n, br[n], nil)
	}
	l = append(l, &c14Variant{name: "missing", missing: true})
	if place == "folder" {
		t := ldifText(sets["B"])
		a, b := c14Split(t)
		l = append(l,
			&c14Variant{name: "B and a broken file", files: map[string]string{"10.ldif": a, "20.ldif": b, "30.ldif": "nonsense\n"}},
			&c14Variant{name: "B behind a broken file", files: map[string]string{"05.ldif": "nonsense\n", "10.ldif": a, "20.ldif": b}},
			&c14Variant{name: "B twice", files: map[string]string{"10.ldif": a, "20.ldif": b, "30.ldif": b}},
			&c14Variant{name: "B in one file", files: map[string]string{"x.ldif": t}, ents: sets["B"]},
			&c14Variant{name: "B in three files", files: map[string]string{"1.ldif": a, "2.ldif": b, "3.ldif": "# nothing\n"}, ents: sets["B"]},
			&c14Variant{name: "B with a broken link", files: map[string]string{"10.ldif": a, "20.ldif": b}, odd: "link"},
		)
	}
	return l
}

func c14MakeSvcs() []*c14Variant {
	var l []*c14Variant
	sets := c14SvcSets()
	for _, n := range []string{"a", "b"} {
		l = append(l, &c14Variant{name: n, files: map[string]string{"": ldifText(sets[n])}, ents: sets[n]})
	}
	br := c14Broken(ldifText(sets["b"]))
	for _, n := range run.SortedKeys(br) {
		l = append(l, &c14Variant{name: "b " + n, files: map[string]string{"": br[n]}})
	}
	return append(l, &c14Variant{name: "missing", missing: true}, &c14Variant{name: "directory", odd: "directory"})
}

func c14Find(l []*c14Variant, name string) *c14Variant {
	for _, v := range l {
		if v.name == name {
			return v
		}
	}
	return nil
}

// write puts the variant at p.
func (v *c14Variant) write(p string) {
	os.RemoveAll(p)
	v.rewrite(p)
}

// rewrite puts the variant at p, keeping the places of files that are replaced.
func (v *c14Variant) rewrite(p string) {
	fi, err := os.Lstat(p)
	_, file := v.files[""]
	if err == nil && (v.missing || v.odd != "" || file == fi.IsDir()) {
		os.RemoveAll(p)
	} else if err == nil && fi.IsDir() {
		l, _ := os.ReadDir(p)
		for _, f := range l {
			if _, ok := v.files[f.Name()]; !ok || !f.Type().IsRegular() {
				os.RemoveAll(filepath.Join(p, f.Name()))
			}
		}
	}
	if v.missing {
		return
	}
	if v.odd == "directory" {
		os.MkdirAll(p, 0o755)
		return
	}
	if t, ok := v.files[""]; ok {
		writeFile(p, t)
		return
	}
	os.MkdirAll(p, 0o755)
	for n, t := range v.files {
		writeFile(filepath.Join(p, n), t)
	}
	if v.odd == "link" {
		os.Symlink(filepath.Join(p, "nowhere"), filepath.Join(p, "z.ldif"))
	}
}

type c14Query struct {
	name  string
	base  string
	scope int
	f     *model.Filter
}

func c14Queries() []c14Query { return c14QueryList }

var c14QueryList = func() []c14Query {
	return []c14Query{
		{"all", "dc=x", model.ScopeSub, fpr("objectClass")},
		{"not", "dc=x", model.ScopeSub, fnot(feq("sn", "zz"))},
		{"uid u1", "dc=x", model.ScopeSub, feq("uid", "u1")},
		{"uid gone or come", "dc=x", model.ScopeSub, foor(feq("uid", "gone"), feq("uid", "come"))},
		{"mail u2", "dc=x", model.ScopeOne, feq("mail", "u2@x")},
		{"base u1", "uid=u1,dc=x", model.ScopeBase, fpr("objectClass")},
		{"sn b4", "dc=x", model.ScopeSub, feq("sn", "b4")},
	}
}()

func (q c14Query) node() *ber.Node {
	return wire.SearchOp(q.base, q.scope, 0, false, q.f.Node(), nil)
}

var c14Wants sync.Map

// want is the answer the given data gives.
func (q c14Query) want(ents []dir.SeedEntry) string {
	type key struct {
		q string
		e *dir.SeedEntry
	}
	var k key
	if len(ents) > 0 {
		k = key{q.name, &ents[0]}
		if s, ok := c14Wants.Load(k); ok {
			return s.(string)
		}
	}
	s := q.compute(ents)
	c14Wants.Store(k, s)
	return s
}

func (q c14Query) compute(ents []dir.SeedEntry) string {
	t := dir.Tree("dc=x", ents)
	var l []*model.Entry
	if t.Get(q.base) == nil {
		return ""
	}
	for _, e := range t.InScope(q.base, q.scope) {
		if q.f.Match(e) {
			c := e.Clone()
			var as []model.Attr
			for _, a := range c.Attrs {
				if !strings.EqualFold(a.Name, "userPassword") {
					as = append(as, a)
				}
			}
			c.Attrs = as
			l = append(l, c)
		}
	}
	return model.CanonEntries(l)
}

var c14Binds = [][2]string{
	{"uid=u1,dc=x", "old"}, {"uid=u1,dc=x", "new"}, {"uid=u2,dc=x", "two"}, {"uid=gone,dc=x", "gone"}, {"uid=come,dc=x", "come"}, {"uid=more,dc=x", "more"},
}
var c14SvcBinds = [][2]string{{"cn=s1,dc=x", "sold"}, {"cn=s1,dc=x", "snew"}, {"cn=s2,dc=x", "same"}, {"cn=s3,dc=x", "three"}}

func c14Binds2(ents []dir.SeedEntry, b [2]string) bool {
	for _, e := range ents {
		if e.DN == b[0] {
			for _, a := range e.Attrs {
				if a.Name == "userPassword" {
					return a.Values[0] == b[1]
				}
			}
		}
	}
	return false
}

// c14Observe compares everything with the given data.
func c14Observe(old, cl *wire.Client, main, svc []dir.SeedEntry) (string, string) {
	sum := ""
	for _, q := range c14Queries() {
		want := q.want(main)
		for i, x := range []*wire.Client{old, cl} {
			r := x.Do(q.node())
			if r.Code != 0 {
				return fmt.Sprintf("search %q on connection %d: code %d %s", q.name, i, r.Code, bad(r)), ""
			}
			if got := model.CanonWire(r.Entries); got != want {
				return fmt.Sprintf("search %q on connection %d: %s", q.name, i, trim(model.Diff(got, want), 400)), ""
			}
		}
		sum += want
	}
	for _, b := range c14Binds {
		want := c14Binds2(main, b)
		if got := cl.Bind(b[0], b[1]).Code == 0; got != want {
			return fmt.Sprintf("bind of %s with %q succeeds: %v", b[0], b[1], got), ""
		}
		sum += fmt.Sprint(want)
	}
	for _, b := range c14SvcBinds {
		want := c14Binds2(svc, b)
		if got := cl.Bind(b[0], b[1]).Code == 0; got != want {
			return fmt.Sprintf("bind of service user %s with %q succeeds: %v", b[0], b[1], got), ""
		}
		sum += fmt.Sprint(want)
	}
	return "", sum
}

// c14Glance is a short form of c14Observe that still tells all variants apart.
func c14Glance(cl *wire.Client, main, svc []dir.SeedEntry) string {
	q := c14Queries()[0]
	if r := cl.Do(q.node()); r.Code != 0 || model.CanonWire(r.Entries) != q.want(main) {
		return fmt.Sprintf("search %q: code %d, %d entries", q.name, r.Code, len(r.Entries))
	}
	for _, b := range c14SvcBinds[:2] {
		if got := cl.Bind(b[0], b[1]).Code == 0; got != c14Binds2(svc, b) {
			return fmt.Sprintf("bind of service user %s with %q succeeds: %v", b[0], b[1], got)
		}
	}
	b := c14Binds[1]
	if got := cl.Bind(b[0], b[1]).Code == 0; got != c14Binds2(main, b) {
		return fmt.Sprintf("bind of %s with %q succeeds: %v", b[0], b[1], got)
	}
	return ""
}

func c14Config(d, place string) server.Config {
	os.MkdirAll(d, 0o755)
	cfg := server.Config{LDAPHandler: "ldif", LDAPBaseDN: dir.Base, LDAPAdminDN: dir.AdminDN, LDAPAllowLocalAnonymousBind: true,
		LDIFMain: filepath.Join(d, "main.ldif"), LDIFConfig: filepath.Join(d, "config.ldif")}
	if place == "folder" {
		cfg.LDIFMain = filepath.Join(d, "main.d")
	}
	return cfg
}

// c14History runs the steps of k.
func c14History(c *run.Ctx, w int, k c14Case, seen func(string)) string {
	mains, svcs := c14Mains(k.Place), c14Svcs()
	cfg := c14Config(filepath.Join(c.Scratch, fmt.Sprintf("c14-%d", w)), k.Place)
	m, s := c14Find(mains, k.Steps[0][0]), c14Find(svcs, k.Steps[0][1])
	m.write(cfg.LDIFMain)
	s.write(cfg.LDIFConfig)
	srv, err := wire.Start(cfg)
	if err != nil {
		return "start: " + err.Error()
	}
	defer srv.Stop()
	old := srv.Dial()
	if what, _ := c14Observe(old, srv.Dial(), m.ents, s.ents); what != "" {
		return "at the start: " + what
	}
	for i, st := range k.Steps[1:] {
		nm, ns := c14Find(mains, st[0]), c14Find(svcs, st[1])
		if k.Keep {
			nm.rewrite(cfg.LDIFMain)
			ns.rewrite(cfg.LDIFConfig)
		} else {
			nm.write(cfg.LDIFMain)
			ns.write(cfg.LDIFConfig)
		}
		err := srv.Reload()
		ok := nm.valid() && ns.valid()
		if ok != (err == nil) {
			return fmt.Sprintf("reload %d of main data %q and service users %q: error %v", i+1, st[0], st[1], err)
		}
		if ok {
			m, s = nm, ns
		}
		what, sum := c14Observe(old, srv.Dial(), m.ents, s.ents)
		if what != "" {
			return fmt.Sprintf("after reload %d of main data %q and service users %q (error %v): %s", i+1, st[0], st[1], err, what)
		}
		if seen != nil {
			seen(sum)
		}
	}
	return ""
}

// c14Req is a request during a reload: "search <query>" or "bind <dn> <password>".
func c14Req(s string) (node *ber.Node, q *c14Query, b [2]string, svc bool) {
	kind, rest, _ := strings.Cut(s, " ")
	if kind == "search" {
		for _, x := range c14Queries() {
			if x.name == rest {
				return x.node(), &x, b, false
			}
		}
		panic(s)
	}
	dn, pw, _ := strings.Cut(rest, " ")
	b = [2]string{dn, pw}
	return wire.BindOp(dn, pw), nil, b, strings.HasPrefix(dn, "cn=s")
}

// c14Exec runs the last reload of k with requests meanwhile.
func c14Exec(c *run.Ctx, w int, k c14Case) (r *vsched.Run, what, outcome string, overlap bool) {
	mains, svcs := c14Mains(k.Place), c14Svcs()
	cfg := c14Config(filepath.Join(c.Scratch, fmt.Sprintf("c14-%d", w)), k.Place)
	m, s := c14Find(mains, k.Steps[0][0]), c14Find(svcs, k.Steps[0][1])
	nm, ns := c14Find(mains, k.Steps[1][0]), c14Find(svcs, k.Steps[1][1])
	m.write(cfg.LDIFMain)
	s.write(cfg.LDIFConfig)
	srv, err := wire.Start(cfg)
	if err != nil {
		return nil, "start: " + err.Error(), "", false
	}
	defer srv.Stop()
	nm.write(cfg.LDIFMain)
	ns.write(cfg.LDIFConfig)
	r = vsched.New(k.Devs)
	defer r.Close()
	var conns []*schedConn
	for i, l := range k.Conns {
		var ops []*ber.Node
		for _, q := range l {
			n, _, _, _ := c14Req(q)
			ops = append(ops, n)
		}
		x := newSchedConn(r, i+1, []*ber.Node{wire.BindOp("", "")}, ops)
		conns = append(conns, x)
		if err := srv.Connect(x); err != nil {
			return nil, err.Error(), "", false
		}
	}
	var begin, end int64
	var reloadErr error
	go func() {
		r.Gate(0)
		defer vsched.Exit()
		begin = r.Stamp()
		reloadErr = srv.Reload()
		end = r.Stamp()
	}()
	if err := r.Start(len(conns) + 1); err != nil {
		return nil, "not served: " + err.Error(), "", false
	}
	if r.Stuck != "" {
		return r, "the reload or the requests never finish: " + r.Stuck, "", true
	}
	ok := nm.valid() && ns.valid()
	if ok != (reloadErr == nil) {
		return r, fmt.Sprintf("reload: error %v", reloadErr), "", true
	}
	// Every answer tells whether it can be that of the old and of the new data. Main data and service users have
	// one moment each at which they change; look for it.
	type obs struct {
		inv, resp int64
		old, new  bool
		what      string
	}
	var l [2][]obs
	for i, x := range conns {
		as := x.answers()
		if len(as) != len(k.Conns[i]) {
			return r, fmt.Sprintf("connection %d: %d answers to %d requests", i, len(as), len(k.Conns[i])), "", true
		}
		for j, a := range as {
			_, q, b, svc := c14Req(k.Conns[i][j])
			o := obs{inv: a.inv, resp: a.resp, what: k.Conns[i][j]}
			if a.Code < 0 {
				return r, fmt.Sprintf("connection %d: %q is not answered", i, o.what), "", true
			}
			if a.inv < end && begin < a.resp {
				overlap = true
			}
			n := 0
			if q != nil {
				got := model.CanonWire(a.Entries)
				o.old, o.new = a.Code == 0 && got == q.want(m.ents), a.Code == 0 && ok && got == q.want(nm.ents)
			} else {
				oe, ne := m.ents, nm.ents
				if svc {
					oe, ne, n = s.ents, ns.ents, 1
				}
				got := a.Code == 0
				o.old, o.new = got == c14Binds2(oe, b), ok && got == c14Binds2(ne, b)
			}
			if !o.old && !o.new {
				return r, fmt.Sprintf("%q during the reload is answered neither from the old nor from the new data: code %d, %d entries", o.what, a.Code, len(a.Entries)), "", true
			}
			outcome += fmt.Sprintf("%s: old %v new %v; ", o.what, o.old, o.new)
			l[n] = append(l[n], o)
		}
	}
	for n := range l {
		// The change happens at some time t within the reload: answers before t are old, requests after t new.
		fits := false
		times := []int64{begin, end}
		for _, o := range l[n] {
			times = append(times, o.inv, o.resp)
		}
		for _, t := range times {
			if t < begin || t > end {
				continue
			}
			for _, after := range []bool{false, true} { // just before or just after t
				good := true
				for _, o := range l[n] {
					respBefore := o.resp < t || o.resp == t && after
					invAfter := o.inv > t || o.inv == t && !after
					if respBefore && !o.old || invAfter && ok && !o.new || !ok && !o.old {
						good = false
					}
				}
				fits = fits || good
			}
		}
		if !fits {
			return r, "no moment of change explains the answers: " + outcome, "", true
		}
	}
	fm, fs := m, s
	if ok {
		fm, fs = nm, ns
	}
	if what := c14Glance(srv.Dial(), fm.ents, fs.ents); what != "" {
		return r, "after the reload: " + what, "", overlap
	}
	return r, "", outcome, overlap
}

func c14Judge(c *run.Ctx, w int, k c14Case) string {
	if k.Signal {
		return c14Signal(c, w, k)
	}
	if k.Conns != nil {
		schedHook()
		_, what, _, _ := c14Exec(c, w, k)
		return what
	}
	return c14History(c, w, k, nil)
}

func c14Explore(c *run.Ctx) {
	var mu sync.Mutex
	states := map[string]bool{}
	seen := func(s string) {
		mu.Lock()
		if !states[s] {
			states[s] = true
			c.States.Add(1)
		}
		mu.Unlock()
	}
	// Part one.
	var cases []c14Case
	for _, place := range []string{"file", "folder"} {
		mains, svcs := c14Mains(place), c14Svcs()
		var steps, few [][2]string
		for _, m := range mains {
			for _, s := range svcs {
				// Errors at every line of one with the other valid, and all kinds together.
				if strings.Contains(m.name, "bad line") && strings.Contains(s.name, "bad line") && !c.Thorough {
					continue
				}
				steps = append(steps, [2]string{m.name, s.name})
				if !c.Thorough {
					if strings.Contains("|A|B|C|B duplicate|B template execution|B bad line 5|missing|B and a broken file|B in one file|", "|"+m.name+"|") && strings.Contains("|a|b|b duplicate|b bad line 3|missing|", "|"+s.name+"|") {
						few = append(few, [2]string{m.name, s.name})
					}
				} else if !strings.Contains(m.name, "bad line") && !strings.Contains(s.name, "bad line") || m.name == "B bad line 5" && s.valid() || s.name == "b bad line 3" && m.valid() {
					few = append(few, [2]string{m.name, s.name})
				}
			}
		}
		for _, st := range steps {
			cases = append(cases, c14Case{Place: place, Steps: [][2]string{{"A", "a"}, st}}, c14Case{Place: place, Steps: [][2]string{{"B", "b"}, st}},
				c14Case{Place: place, Keep: true, Steps: [][2]string{{"A", "a"}, st}}, c14Case{Place: place, Keep: true, Steps: [][2]string{{"A", "a"}, {"C", "b"}, st, {"B", "a"}}})
		}
		for _, a := range few {
			for _, b := range few {
				cases = append(cases, c14Case{Place: place, Steps: [][2]string{{"A", "a"}, a, b}})
				if c.Thorough {
					for _, d := range []([2]string){{"A", "a"}, {"B", "b"}, {"C", "a"}, {"missing", "a"}, {"A", "missing"}, {"B duplicate", "b"}, {"C", "b"}} {
						cases = append(cases, c14Case{Place: place, Steps: [][2]string{{"A", "a"}, a, b, d}})
					}
				}
			}
		}
	}
	// Long runs: all pairs of data in turn.
	for _, place := range []string{"file", "folder"} {
		l := [][2]string{{"A", "a"}, {"B", "b"}, {"C", "a"}, {"D", "b"}, {"B duplicate", "b"}, {"missing", "a"}, {"A", "missing"}}
		for i, a := range l {
			for _, b := range l[i+1:] {
				k := c14Case{Place: place, Steps: [][2]string{{"A", "a"}}}
				for n := 0; n < 25; n++ {
					k.Steps = append(k.Steps, a, b)
				}
				cases = append(cases, k)
			}
		}
	}
	c.Extra("histories", len(cases))
	c.Par(len(cases), func(w, i int) {
		k := cases[i]
		c.Announce(w, k)
		c.Evals.Add(1)
		c.Traces.Add(1)
		c.Trans.Add(int64(len(k.Steps) - 1))
		what := c14History(c, w, k, seen)
		if what != "" {
			c.Violation(keyOf(k), what, k)
			return
		}
		for _, s := range k.Steps[1:] {
			if len(s[0]) > 1 || len(s[1]) > 1 {
				c.Nontrivial.Add(1)
				break
			}
		}
		if i%1999 == 7 {
			c.Sample(k)
		}
	})
	// Part three.
	var lives []c14Case
	for _, m := range c14Mains("file") {
		for _, s := range c14Svcs() {
			if !c.Thorough && (strings.Contains(m.name, "bad line") || strings.Contains(s.name, "bad line") || !m.valid() && !s.valid()) {
				continue
			}
			st := [2]string{m.name, s.name}
			lives = append(lives, c14Case{Place: "file", Signal: true, Steps: [][2]string{{"A", "a"}, st, {"B", "b"}, st, {"C", "a"}}})
		}
	}
	for i := 0; i < len(lives) && !c.Expired() && !c.Enough(); i += 40 {
		ks := lives[i:min(i+40, len(lives))]
		for w := 0; w < min(c.Workers, len(ks)); w++ {
			c.Announce(w, ks[w])
		}
		for _, x := range c14Lives(c, ks) {
			c.Evals.Add(1)
			c.Traces.Add(1)
			c.Trans.Add(4)
			if x.what != "" {
				c.Violation(keyOf(x.k), x.what, x.k)
			}
		}
	}
	c.Extra("histories_with_signals", len(lives))
	// Part two.
	var scens []c14Case
	targets := [][2]string{{"B", "b"}, {"B bad line 14", "b"}, {"B", "b bad line 9"}, {"B duplicate", "b"}, {"missing", "b"}}
	reqs := [][][]string{
		{{"search all", "search all"}},
		{{"search uid gone or come"}, {"search not"}},
		{{"search uid u1", "bind uid=u1,dc=x new"}},
		{{"bind uid=u1,dc=x old", "search mail u2"}},
		{{"bind cn=s1,dc=x sold"}, {"bind cn=s1,dc=x snew"}},
		{{"bind cn=s1,dc=x snew", "bind cn=s1,dc=x snew"}},
		{{"bind cn=s2,dc=x same"}, {"bind uid=u2,dc=x two"}},
		{{"bind cn=s3,dc=x three", "search all"}},
		{{"search base u1"}, {"bind uid=u1,dc=x new", "search sn b4"}},
	}
	for _, place := range []string{"file", "folder"} {
		for ti, t := range targets {
			for ri, q := range reqs {
				if place == "folder" && !c.Thorough && (ti > 1 || ri > 2) {
					continue
				}
				scens = append(scens, c14Case{Place: place, Steps: [][2]string{{"A", "a"}, t}, Conns: q})
			}
		}
	}
	b := schedBounds{pairs: [][2]int{{1, 1}, {0, 2}}, free: 1, loops: 2}
	if c.Thorough {
		b = schedBounds{pairs: [][2]int{{1, 1}, {0, 3}}, free: 2, loops: 4}
	}
	var diverged, loose, schedules int64
	outs := map[string]map[string]bool{}
	per := map[string]int{}
	schedExplore(c, len(scens), func(i int) schedBounds { return b }, func(w, i int, devs []vsched.Dev) *vsched.Run {
		k := scens[i]
		k.Devs = devs
		c.Announce(w, k)
		r, what, out, overlap := c14Exec(c, w, k)
		c.Evals.Add(1)
		c.Traces.Add(1)
		if overlap {
			c.Nontrivial.Add(1)
		}
		name := keyOf([]any{k.Place, k.Steps, k.Conns})
		if what != "" {
			c.Violation(name, what, k)
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		schedules++
		per[name]++
		if r != nil {
			c.Trans.Add(int64(r.Steps))
			if r.Diverged {
				diverged++
			}
			if r.Loose {
				loose++
			}
		}
		if outs[name] == nil {
			outs[name] = map[string]bool{}
		}
		if !outs[name][out] {
			outs[name][out] = true
			c.States.Add(1)
			if len(devs) > 0 && overlap {
				c.Sample(map[string]any{"case": k, "outcome": out})
			}
		}
		return r
	})
	several, top := 0, []string{}
	for n, m := range outs {
		if len(m) > 1 {
			several++
		}
		top = append(top, fmt.Sprintf("%6d %s", per[n], n))
	}
	sort.Sort(sort.Reverse(sort.StringSlice(top)))
	c.Extra("scenarios", len(scens))
	c.Extra("scenarios_with_several_outcomes", several)
	c.Extra("largest_scenarios", top[:min(3, len(top))])
	c.Extra("schedules", schedules)
	c.Extra("diverged", diverged)
	c.Extra("waited_outside_of_the_scheduler", loose)
	c.Extra("instrumentation_level", vsched.Level)
	if vsched.Level != "2" {
		c.Incomplete("built with instrumentation level " + vsched.Level)
	}
	if diverged > 0 {
		c.Incomplete(fmt.Sprintf("%d schedules could not be followed", diverged))
	}
}

// c14Live is a server told to reload by signals.
type c14Live struct {
	k    c14Case
	l    *live
	old  *wire.Client
	m, s *c14Variant
	what string
	cfg  server.Config
}

// put replaces a file at once.
func (v *c14Variant) put(p string) {
	if v.missing || v.odd != "" {
		v.write(p)
		return
	}
	if fi, err := os.Stat(p); err == nil && fi.IsDir() {
		os.RemoveAll(p)
	}
	writeFile(p+".new", v.files[""])
	os.Rename(p+".new", p)
}

func (x *c14Live) start(c *run.Ctx, slot int) {
	x.cfg = c14Config(filepath.Join(c.Scratch, fmt.Sprintf("c14-live-%d", slot)), "file")
	x.m, x.s = c14Find(c14Mains("file"), x.k.Steps[0][0]), c14Find(c14Svcs(), x.k.Steps[0][1])
	x.m.put(x.cfg.LDIFMain)
	x.s.put(x.cfg.LDIFConfig)
	liveListen(c, &x.cfg, "plain")
	l, err := liveStart(x.cfg, nil)
	if err != nil {
		x.what = "start: " + err.Error()
		return
	}
	x.l = l
	conn, err := liveDial(l.addr, false)
	if err != nil {
		x.what = err.Error()
		return
	}
	x.old = wire.NetClient(conn)
}

func (x *c14Live) observe() string {
	conn, err := liveDial(x.l.addr, false)
	if err != nil {
		return "the server is not reachable: " + err.Error()
	}
	defer conn.Close()
	what, _ := c14Observe(x.old, wire.NetClient(conn), x.m.ents, x.s.ents)
	return what
}

// judge looks at the server after the signal of step i.
func (x *c14Live) judge(i int) {
	if x.what != "" {
		return
	}
	st := x.k.Steps[i]
	m, s := c14Find(c14Mains("file"), st[0]), c14Find(c14Svcs(), st[1])
	end := time.Now()
	if m.valid() && s.valid() {
		x.m, x.s = m, s
		end = end.Add(livePatience)
	}
	for {
		what := x.observe()
		if what == "" {
			return
		}
		if time.Now().After(end) {
			x.what = fmt.Sprintf("after signal %d for main data %q and service users %q: %s", i, st[0], st[1], what)
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// c14Lives runs histories of the same length together.
func c14Lives(c *run.Ctx, ks []c14Case) []*c14Live {
	xs := make([]*c14Live, len(ks))
	var wg sync.WaitGroup
	all := func(f func(i int, x *c14Live)) {
		for i, x := range xs {
			wg.Add(1)
			go func() { defer wg.Done(); f(i, x) }()
		}
		wg.Wait()
	}
	for i := range ks {
		xs[i] = &c14Live{k: ks[i]}
	}
	all(func(i int, x *c14Live) { x.start(c, i) })
	for n := 1; n < len(ks[0].Steps); n++ {
		for _, x := range xs {
			c14Find(c14Mains("file"), x.k.Steps[n][0]).put(x.cfg.LDIFMain)
			c14Find(c14Svcs(), x.k.Steps[n][1]).put(x.cfg.LDIFConfig)
		}
		liveRaise(syscall.SIGHUP)
		time.Sleep(60 * time.Millisecond) // for reloads that fail, which cannot be waited for
		all(func(i int, x *c14Live) { x.judge(n) })
	}
	liveRaise(syscall.SIGTERM)
	all(func(i int, x *c14Live) {
		if x.old != nil {
			x.old.Close()
		}
		if x.l != nil && !x.l.wait() && x.what == "" {
			x.what = "the server does not stop"
		}
	})
	return xs
}

func c14Signal(c *run.Ctx, w int, k c14Case) string { return c14Lives(c, []c14Case{k})[0].what }
