package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// Entries a modify request is applied to.
func c19Entries() []dir.SeedEntry {
	many := dir.E("cn=many,dc=x", "objectClass", "person", "cn", "many", "sn", "b")
	for i := 0; i < 40; i++ {
		many.Attrs = addVal(many.Attrs, "description", fmt.Sprintf("v%d", (i*7)%40))
	}
	for i := 0; i < 40; i++ {
		many.Attrs = append(many.Attrs, model.Attr{Name: fmt.Sprintf("a%d", i), Values: []string{"x"}})
	}
	many.Attrs = append(many.Attrs, model.Attr{Name: "title", Values: []string{"T", "u"}})
	return []dir.SeedEntry{
		dir.E("cn=a,dc=x", "objectClass", "person", "cn", "a", "cn", "Second", "description", "V1", "description", "v2", "description", "v3", "sn", "S"),
		dir.E("cn=A+sn=b,dc=x", "objectClass", "person", "cn", "A", "sn", "b", "sn", "c", "description", "v2"),
		dir.E("cn=a\\,b,dc=x", "objectClass", "person", "cn", "a,b", "Description", "\xff\x00", "sn", "\xc3\xbc"),
		dir.E("cn=a+cn=b,dc=x", "objectClass", "person", "cn", "b", "cn", "a", "cn", "c", "sn", ""),
		dir.E("description=v2,dc=x", "objectClass", "device", "description", "v1", "description", "v2", "cn", "a"),
		many,
	}
}

// Spellings used to address them.
var c19Names = []string{"cn=a,dc=x", "CN=a + SN=B, dc=x", "cn=a\\2cB,DC=X", "cn=a+cn=b,dc=x", "description=V2,dc=x", "CN=Many,dc=x"}

func c19Changes() []model.Change {
	var l []model.Change
	for _, op := range []int{model.Add, model.Delete, model.Replace} {
		for _, x := range []struct {
			n  string
			vs [][]string
		}{
			{"description", [][]string{{"v2"}, {"V1", "v4"}, {"v3", "v1", "v2"}, {"\xfe\x00"}}},
			{"DESCRIPTION", [][]string{{"V2"}, {"v5", "v1"}}},
			{"cn", [][]string{{"a"}, {"B"}, {"c", "second"}, {"A", "b", "a,B"}}},
			{"sn", [][]string{{"B"}, {"c", "\xc3\x9c", ""}, {"b", "s"}}},
			{"Title", [][]string{{"t"}}},
		} {
			for _, vs := range x.vs {
				l = append(l, ch(op, x.n, vs...))
			}
		}
		if op != model.Add {
			l = append(l, ch(op, "Description"), ch(op, "cn"), ch(op, "SN"), ch(op, "title"))
		}
	}
	// Kinds that are not supported, increment among them.
	l = append(l, ch(3, "description", "v9"), ch(4, "title", "1"), ch(3, "title"), ch(-1, "description", "v9"))
	return l
}

type c19Case struct {
	Entry   int   `json:"entry"`
	Changes []int `json:"changes"`
}

func (k c19Case) String() string {
	all := c19Changes()
	var l []string
	for _, i := range k.Changes {
		l = append(l, fmt.Sprintf("%s %s %q", map[int]string{0: "add", 1: "delete", 2: "replace"}[all[i].Op], all[i].Name, all[i].Vals))
	}
	return c19Names[k.Entry] + ": " + strings.Join(l, ", ")
}

// c19Canon renders an entry with the values of each attribute in order.
func c19Canon(e *model.Entry) string {
	var l []string
	for _, a := range e.Attrs {
		l = append(l, fmt.Sprintf("%s=%q", strings.ToLower(a.Name), a.Values))
	}
	sort.Strings(l)
	return e.DN.Key() + " " + strings.Join(l, " ")
}

func c19Content(c *wire.Client) (string, error) {
	r := c.Search(dir.Base, model.ScopeSub, wire.FPresent("objectClass"))
	if r.Code != 0 {
		return "", fmt.Errorf("search: %d %s", r.Code, bad(r))
	}
	var l []string
	for _, e := range r.Entries {
		m, ok := model.FromWire(e)
		if !ok {
			return "", fmt.Errorf("unparsable name %q", e.DN)
		}
		l = append(l, c19Canon(m))
	}
	sort.Strings(l)
	return strings.Join(l, "\n"), nil
}

func c19Model(es []*model.Entry) string {
	var l []string
	for _, e := range es {
		l = append(l, c19Canon(e))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

type c19Worker struct {
	d     *dir.Dir
	fixed []*model.Entry
	all   []model.Change
	ents  []dir.SeedEntry
}

func c19Open(c *run.Ctx, w int) (*c19Worker, error) {
	p := filepath.Join(c.Scratch, fmt.Sprintf("c19-%d.db", w))
	seed := append(dir.Standard(), dir.E("cn=other,dc=x", "objectClass", "person", "cn", "other", "cn", "a", "description", "v1", "description", "V2"))
	if _, err := dir.Seed(p, dir.Base, seed); err != nil {
		return nil, err
	}
	d, err := dir.Open(p, nil)
	if err != nil {
		return nil, err
	}
	x := &c19Worker{d: d, all: c19Changes(), ents: c19Entries()}
	for _, e := range dir.Tree(dir.Base, seed).E {
		x.fixed = append(x.fixed, e)
	}
	return x, nil
}

func (x *c19Worker) judge(c *run.Ctx, k c19Case) string {
	se := x.ents[k.Entry]
	op := dir.Op{K: "add", DN: se.DN, Attrs: se.Attrs}
	if r := op.Do(x.d.Adm); r.Code != 0 {
		return fmt.Sprintf("adding %s: %d %s", se.DN, r.Code, bad(r))
	}
	dn, _ := model.ParseDN(se.DN)
	e := &model.Entry{DN: dn, Attrs: se.Attrs}
	var chs []model.Change
	for _, i := range k.Changes {
		chs = append(chs, x.all[i])
	}
	want, ok := e.Modify(chs)
	// A value of the name that is removed and put back by the same request: refusing is as good as doing it.
	lenient := false
	if !ok {
		if net, ok2 := e.ModifyNet(chs); ok2 {
			want, lenient = net, true
		}
	}
	r := x.d.Adm.Do(wire.ModifyOp(c19Names[k.Entry], model.ToChanges(chs)))
	if b := bad(r); b != "" {
		return b
	}
	if r.Code == 0 && !ok && !lenient {
		return "accepted although a value of the name is removed or the change is unknown"
	}
	if r.Code != 0 && ok {
		return fmt.Sprintf("refused with %d", r.Code)
	}
	if r.Code != 0 {
		want = e
	}
	got, err := c19Content(x.d.Adm)
	if err != nil {
		return err.Error()
	}
	if w := c19Model(append(append([]*model.Entry{}, x.fixed...), want)); got != w {
		return fmt.Sprintf("answer %d, content differs: %s", r.Code, model.Diff(got, w))
	}
	if r.Code == 0 && c19Canon(want) != c19Canon(e) {
		c.Nontrivial.Add(1)
	}
	c.Outcome(fmt.Sprintf("accepted=%v changed=%v", r.Code == 0, c19Canon(want) != c19Canon(e)))
	if r := x.d.Adm.Do(wire.DelOp(se.DN)); r.Code != 0 {
		return fmt.Sprintf("deleting %s: %d %s", se.DN, r.Code, bad(r))
	}
	return ""
}

func init() {
	register(&run.Check{
		ID: "C19", Level: "exploration",
		Rule:   "All modify requests of up to two changes over the vocabulary (thorough: three; quick: three over every third change) on each of the entries, and requests of forty changes repeating two; the answer and the complete content, values in order, are compared with the reference. Non-trivial are accepted requests that change the entry.",
		Assume: []string{"removing a value of the name and adding it again in the same request may be refused or done", "repeating a value within one change is outside of the vocabulary"},
		Explore: func(c *run.Ctx) {
			n := len(c19Changes())
			var cases []c19Case
			for e := range c19Names {
				for i := 0; i < n; i++ {
					cases = append(cases, c19Case{e, []int{i}})
					for j := 0; j < n; j++ {
						cases = append(cases, c19Case{e, []int{i, j}})
						for k := 0; k < n; k++ {
							if c.Thorough || i%3 == 0 && j%3 == 1 && k%3 == 2 || i%3 == 2 && j%3 == 0 && k%3 == 1 {
								cases = append(cases, c19Case{e, []int{i, j, k}})
							}
						}
					}
				}
			}
			// Long requests: pairs and triples of changes again and again.
			for e := range c19Names {
				for i := 0; i < n; i++ {
					for j := 0; j < n; j += 5 {
						var l []int
						for len(l) < 40 {
							l = append(l, i, (i+j)%n)
						}
						cases = append(cases, c19Case{e, l}, c19Case{e, append(l[:39:39], (i+1)%n)})
					}
				}
			}
			ws := make([]*c19Worker, c.Workers)
			c.Par(len(cases), func(w, i int) {
				k := cases[i]
				if ws[w] == nil {
					x, err := c19Open(c, w)
					if err != nil {
						c.Errorf("%v", err)
						return
					}
					ws[w] = x
				}
				c.Announce(w, k)
				c.Evals.Add(1)
				if i%2999 == 7 {
					c.Sample(k.String())
				}
				if what := ws[w].judge(c, k); what != "" {
					c.Violation(k.String()+": "+what, k.String()+": "+what, k)
					ws[w].d.Close()
					ws[w] = nil
				}
			})
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c19Case) string {
			x, err := c19Open(c, w)
			if err != nil {
				return err.Error()
			}
			defer x.d.Close()
			return x.judge(c, k)
		}),
	})
}
