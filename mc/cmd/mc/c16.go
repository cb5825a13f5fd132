package main

import (
	"bytes"
	"fmt"
	"io"
	"path/filepath"

	"idmverif/lib/ber"
	"idmverif/lib/dir"
	"idmverif/lib/model"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

// c16Reqs are the well-formed requests that get damaged. Values with inner BER are given as trees.
func c16Reqs() []*ber.Node {
	sup := "ou=p,dc=x"
	ext := func(v *ber.Node) *ber.Node {
		n := ber.Cons(wire.TExt, ber.StrT(0x80, wire.PwModOID))
		n.Kids = append(n.Kids, &ber.Node{Tag: 0x81, Kids: []*ber.Node{v}})
		return n
	}
	ctrl := func(op *ber.Node, cs ...*ber.Node) *ber.Node {
		m := wire.Msg(5, op)
		m.Kids = append(m.Kids, ber.Cons(0xa0, cs...))
		return m
	}
	all := wire.SearchOp(dir.Base, model.ScopeSub, 0, false, wire.FPresent("objectClass"), nil)
	f := wire.FAnd(wire.FOr(wire.FEq("cn", "a"), wire.FPresent("cn"), wire.FSub("sn", "A", []string{"b"}, "c")),
		wire.FNot(ber.Cons(0xa5, ber.Str("sn"), ber.Str("b"))), ber.Cons(0xa6, ber.Str("sn"), ber.Str("b")), ber.Cons(0xa8, ber.Str("sn"), ber.Str("b")),
		ber.Cons(0xa9, ber.StrT(0x81, "2.5.13.2"), ber.StrT(0x82, "cn"), ber.StrT(0x83, "a"), ber.Prim(0x84, []byte{0xff})))
	return []*ber.Node{
		wire.Msg(5, wire.BindOp(c17U, c17PW)),
		wire.Msg(5, wire.SASLBindOp("", "PLAIN", "x")),
		wire.Msg(5, wire.SearchOp(dir.Base, model.ScopeSub, 0, false, f, []string{"cn", "sn"})),
		wire.Msg(5, wire.SearchOp("ou=p,dc=x", model.ScopeOne, 3, true, wire.FSub("cn", "", []string{"a"}, ""), []string{"*", "+"})),
		ctrl(all, ber.Seq(ber.Str(wire.PagingOID), ber.Bool(true), &ber.Node{Tag: 0x04, Kids: []*ber.Node{ber.Seq(ber.Int(2), ber.Prim(0x04, nil))}})),
		ctrl(all, ber.Seq(ber.Str("1.2.3")), ber.Seq(ber.Str("2.16.840.1.113730.3.4.2"), ber.Str("x"))),
		wire.Msg(5, wire.AddOp("cn=n,dc=x", []wire.Attr{{Name: "objectClass", Values: []string{"person"}}, {Name: "cn", Values: []string{"n", "m"}}})),
		wire.Msg(5, wire.ModifyOp("cn=b,ou=p,dc=x", []wire.Change{{Op: 2, Attr: wire.Attr{Name: "sn", Values: []string{"x", "y"}}}, {Op: 0, Attr: wire.Attr{Name: "description", Values: []string{"d"}}}, {Op: 1, Attr: wire.Attr{Name: "sn"}}})),
		wire.Msg(5, wire.DelOp("cn=b,ou=p,dc=x")),
		wire.Msg(5, wire.ModDNOp("cn=b,ou=p,dc=x", "cn=n", true, nil)),
		wire.Msg(5, wire.ModDNOp("cn=b,ou=p,dc=x", "cn=n", true, &sup)),
		wire.Msg(5, wire.CompareOp(c17U, "sn", "A")),
		wire.Msg(5, wire.AbandonOp(4)),
		wire.Msg(5, wire.UnbindOp()),
		wire.Msg(5, ext(ber.Seq(ber.StrT(0x80, c17U), ber.StrT(0x81, c17PW), ber.StrT(0x82, "new")))),
		wire.Msg(5, wire.ExtOp("1.2.3", []byte("x"))),
	}
}

var (
	c16Tags = []byte{0x00, 0x01, 0x02, 0x04, 0x05, 0x06, 0x09, 0x0a, 0x0c, 0x0d, 0x13, 0x16, 0x18, 0x1f, 0x24, 0x30, 0x31, 0x3f, 0x42, 0x4a, 0x60, 0x63, 0x77, 0x80, 0x81, 0x82, 0x83, 0x87, 0x8a, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa9}
	c16Ops  = []byte{0x60, 0x61, 0x42, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x4a, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x50, 0x70, 0x73, 0x77, 0x78, 0x79, 0x7e, 0x7f}
	c16Vals = []string{"\x00", "\xff", "\x80", "\x03", "\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x7f\xff\xff\xff\xff\xff\xff\xff", "\x80\x00\x00\x00\x00\x00\x00\x00", "\x7f\xff\xff\xff", "\xff\xff\xff\xff",
		"=", ",", "cn=", "cn=a,", "\\", "cn=\\", "cn=\\4", "cn=a+", "+", "#", "cn=#zz", "cn=#04", "cn=#0401", "cn=#300a", "cn=#0484ffffffff61", "cn=\"a", "*", "dc=x,", " ", "\x00,dc=x", "{ARGON2}", "{ARGON2}$", "{CRYPT}", "{SSHA}AA", "\xc3", ";;", "cn=a;b", "userPassword;x-y"}
)

const (
	c16Fixed = 24 // mutations that need no table
)

func c16Count() int { return c16Fixed + len(c16Tags) + len(c16Ops) + len(c16Vals) }

// c16Pair are the mutations combined with each other.
func c16Pair() []int {
	return []int{0, 1, 2, 3, 20, c16Fixed + 2, c16Fixed + 3, c16Fixed + 15, c16Fixed + len(c16Tags) + len(c16Ops), c16Fixed + len(c16Tags) + len(c16Ops) + 4}
}

type c16Slot struct {
	n, parent *ber.Node
	at        int
}

func c16Slots(root *ber.Node) (l []c16Slot) {
	var walk func(n, p *ber.Node, at int)
	walk = func(n, p *ber.Node, at int) {
		l = append(l, c16Slot{n, p, at})
		for i, k := range n.Kids {
			walk(k, n, i)
		}
	}
	walk(root, nil, 0)
	return l
}

func c16Body(n *ber.Node) []byte {
	b := append([]byte{}, n.Val...)
	for _, k := range n.Kids {
		b = append(b, k.Bytes()...)
	}
	return b
}

// c16Mutate damages the element in slot s; it returns a description, "" if the mutation does not apply.
func c16Mutate(s c16Slot, m int) string {
	n := s.n
	raw := func(name string, head ...byte) string {
		n.Raw = append(append([]byte{n.Tag}, head...), c16Body(n)...)
		return name
	}
	switch m {
	case 0:
		if s.parent == nil || s.at >= len(s.parent.Kids) || s.parent.Kids[s.at] != n {
			return ""
		}
		s.parent.Kids = append(append([]*ber.Node{}, s.parent.Kids[:s.at]...), s.parent.Kids[s.at+1:]...)
		return "drop"
	case 1:
		if s.parent == nil || s.at >= len(s.parent.Kids) || s.parent.Kids[s.at] != n {
			return ""
		}
		s.parent.Kids = append(append(append([]*ber.Node{}, s.parent.Kids[:s.at+1]...), n.Clone()), s.parent.Kids[s.at+1:]...)
		return "repeat"
	case 2:
		if len(n.Val)+len(n.Kids) == 0 {
			return ""
		}
		n.Val, n.Kids = nil, nil
		return "empty"
	case 3:
		n.Tag ^= 0x20
		return "toggle constructed"
	case 4:
		n.LenDelta = 1
		return "length+1"
	case 5:
		n.LenDelta = -1
		return "length-1"
	case 6:
		n.LenDelta = 1000
		return "length+1000"
	case 7:
		n.LongLen = 4
		return "long length"
	case 8:
		n.LongLen = 8
		return "very long length"
	case 9:
		n.Raw = append(append([]byte{n.Tag, 0x80}, c16Body(n)...), 0, 0)
		return "indefinite"
	case 10:
		return raw("indefinite without end", 0x80)
	case 11:
		return raw("length octet ff", 0xff)
	case 12:
		return raw("length 2^31-1", 0x84, 0x7f, 0xff, 0xff, 0xff)
	case 13:
		return raw("length 2^63-1", 0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
	case 14:
		return raw("length 2^64-1", 0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
	case 15:
		return raw("length of nine octets", 0x89, 0, 0, 0, 0, 0, 0, 0, 0, 1)
	case 16:
		return raw("length 2^63", 0x88, 0x80, 0, 0, 0, 0, 0, 0, 0)
	case 17:
		c := n.Clone()
		*n = *ber.Seq(c)
		return "wrap"
	case 18:
		if s.parent == nil || len(n.Kids) == 0 || s.at >= len(s.parent.Kids) || s.parent.Kids[s.at] != n {
			return ""
		}
		s.parent.Kids = append(append(append([]*ber.Node{}, s.parent.Kids[:s.at]...), n.Kids...), s.parent.Kids[s.at+1:]...)
		return "unwrap"
	case 19:
		if s.parent == nil || s.at+1 >= len(s.parent.Kids) || s.parent.Kids[s.at] != n {
			return ""
		}
		k := append([]*ber.Node{}, s.parent.Kids...)
		k[s.at], k[s.at+1] = k[s.at+1], k[s.at]
		s.parent.Kids = k
		return "swap"
	case 20:
		*n = ber.Node{Tag: 0x05}
		return "null"
	case 21:
		n.Kids = append(append([]*ber.Node{}, n.Kids...), &ber.Node{Tag: 0x05})
		return "append null"
	case 22:
		n.Kids = append(append([]*ber.Node{}, n.Kids...), &ber.Node{Tag: 0x00})
		return "append end of contents"
	case 23:
		if n.Constructed() {
			return ""
		}
		n.Val, n.Kids = bytes.Repeat([]byte("A"), 70000), nil
		return "70000 bytes"
	}
	m -= c16Fixed
	if m < len(c16Tags) {
		if n.Tag == c16Tags[m] {
			return ""
		}
		n.Tag = c16Tags[m]
		return fmt.Sprintf("tag %#x", n.Tag)
	}
	m -= len(c16Tags)
	if m < len(c16Ops) {
		if s.at != 1 || s.parent == nil || s.parent.Tag != 0x30 || n.Tag&0xc0 != 0x40 || n.Tag == c16Ops[m] {
			return ""
		}
		n.Tag = c16Ops[m]
		return fmt.Sprintf("operation %#x", n.Tag)
	}
	m -= len(c16Ops)
	if n.Constructed() || string(n.Val) == c16Vals[m] {
		return ""
	}
	n.Val, n.Kids = []byte(c16Vals[m]), nil
	return fmt.Sprintf("value %q", c16Vals[m])
}

// c16Deep are deeply nested inputs.
var c16Deep = []string{"indefinite", "indefinite complete", "definite", "not filter", "and filter", "control value", "password value", "control value indefinite"}

func c16Nest(kind string, depth int) []byte {
	// nest wraps inner depth times into elements of the given tag.
	nest := func(tag byte, inner []byte) []byte {
		heads := make([]byte, 0, depth*6)
		l := len(inner)
		var parts [][]byte
		for i := 0; i < depth; i++ {
			h := []byte{tag, 0x84, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
			if l < 128 {
				h = []byte{tag, byte(l)}
			}
			l += len(h)
			parts = append(parts, h)
		}
		for i := depth - 1; i >= 0; i-- {
			heads = append(heads, parts[i]...)
		}
		return append(heads, inner...)
	}
	cut := func(b []byte) *ber.Node { return &ber.Node{Raw: b} }
	switch kind {
	case "indefinite":
		return bytes.Repeat([]byte{0x30, 0x80}, depth)
	case "indefinite complete":
		return append(bytes.Repeat([]byte{0x30, 0x80}, depth), bytes.Repeat([]byte{0, 0}, depth)...)
	case "definite":
		return nest(0x30, nil)
	case "not filter":
		return wire.Msg(5, wire.SearchOp(dir.Base, model.ScopeSub, 0, false, cut(nest(0xa2, wire.FPresent("objectClass").Bytes())), nil)).Bytes()
	case "and filter":
		return wire.Msg(5, wire.SearchOp(dir.Base, model.ScopeSub, 0, false, cut(nest(0xa0, wire.FPresent("objectClass").Bytes())), nil)).Bytes()
	case "control value", "control value indefinite":
		v := nest(0x30, nil)
		if kind != "control value" {
			v = bytes.Repeat([]byte{0x30, 0x80}, depth)
		}
		return wire.Msg(5, wire.SearchOp(dir.Base, model.ScopeSub, 0, false, wire.FPresent("objectClass"), nil), wire.Control{OID: wire.PagingOID, HasValue: true, Value: v}).Bytes()
	case "password value":
		return wire.Msg(5, wire.ExtOp(wire.PwModOID, nest(0x30, nil))).Bytes()
	}
	panic(kind)
}

type c16Case struct {
	Bolt    bool   `json:"bolt"`
	Start   string `json:"start"`
	Req     int    `json:"req"`
	Slots   []int  `json:"slots,omitempty"`
	Muts    []int  `json:"muts,omitempty"`
	Cut     int    `json:"cut,omitempty"`     // keep that many bytes
	Abrupt  bool   `json:"abrupt,omitempty"`  // the client goes away without reading
	Garbage []byte `json:"garbage,omitempty"` // sent instead
	Deep    string `json:"deep,omitempty"`
	Depth   int    `json:"depth,omitempty"`
}

// bytes builds the input, nil if the case does not apply.
func (k c16Case) bytes(reqs []*ber.Node) ([]byte, string) {
	if k.Deep != "" {
		return c16Nest(k.Deep, k.Depth), fmt.Sprintf("%s nested %d times", k.Deep, k.Depth)
	}
	if k.Garbage != nil {
		return k.Garbage, fmt.Sprintf("% x", k.Garbage)
	}
	root := reqs[k.Req].Clone()
	slots := c16Slots(root)
	what := fmt.Sprintf("request %d", k.Req)
	for i, s := range k.Slots {
		w := c16Mutate(slots[s], k.Muts[i])
		if w == "" {
			return nil, ""
		}
		what += fmt.Sprintf(", element %d %s", s, w)
	}
	b := root.Bytes()
	if k.Cut > 0 {
		if k.Cut >= len(b) {
			return nil, ""
		}
		b = b[:k.Cut]
		what += fmt.Sprintf(", first %d bytes", k.Cut)
	}
	return b, what
}

type c16Worker struct {
	reqs    []*ber.Node
	path    string
	seed    []byte
	d       *dir.Dir
	dirty   bool
	ldif    *wire.Srv
	wit     [2]*wire.Client // bystanders
	content [2]string
}

func c16Open(c *run.Ctx, w int) (*c16Worker, error) {
	x := &c16Worker{reqs: c16Reqs(), path: filepath.Join(c.Scratch, fmt.Sprintf("c16-%d.db", w)), dirty: true}
	var err error
	if x.seed, err = dir.Seed(x.path, dir.Base, c17Seed()); err != nil {
		return nil, err
	}
	x.ldif, err = wire.Start(ldifConfig(filepath.Join(c.Scratch, fmt.Sprintf("c16-%d", w)), ldifText(c17Seed()), ""))
	if err != nil {
		return nil, err
	}
	x.wit[1] = x.ldif.Dial()
	if r := x.wit[1].Bind(c17U, c17PW); r.Code != 0 {
		return nil, fmt.Errorf("bind of the bystander: %d %s", r.Code, bad(r))
	}
	x.content[1], err = c16Content(x.wit[1])
	return x, err
}

func c16Content(c *wire.Client) (string, error) {
	r := c.Search(dir.Base, model.ScopeSub, wire.FPresent("objectClass"))
	if r.Code != 0 {
		return "", fmt.Errorf("bystander's search: %d %s", r.Code, bad(r))
	}
	return model.CanonWire(r.Entries), nil
}

const c16Probe = 1234567

func (x *c16Worker) judge(c *run.Ctx, k c16Case) string {
	b, what := k.bytes(x.reqs)
	if b == nil {
		return ""
	}
	c.Evals.Add(1)
	srv, wi := x.ldif, 1
	if k.Bolt {
		wi = 0
		if x.dirty {
			if x.d != nil {
				x.d.Close()
			}
			var err error
			if x.d, err = dir.Open(x.path, x.seed); err != nil {
				return "start: " + err.Error()
			}
			x.wit[0] = x.d.Srv.Dial()
			if r := x.wit[0].Bind(c17U, c17PW); r.Code != 0 {
				return fmt.Sprintf("bind of the bystander: %d %s", r.Code, bad(r))
			}
			if x.content[0], err = c16Content(x.wit[0]); err != nil {
				return err.Error()
			}
			x.dirty = false
		}
		srv = x.d.Srv
	}
	cl := srv.Dial()
	defer cl.Close()
	switch k.Start {
	case "user":
		if r := cl.Bind(c17U, c17PW); r.Code != 0 {
			return fmt.Sprintf("bind of the user: %d %s", r.Code, bad(r))
		}
	case "admin":
		if r := cl.Bind(dir.AdminDN, dir.AdminPW); r.Code != 0 {
			return fmt.Sprintf("bind of the administrator: %d %s", r.Code, bad(r))
		}
	}
	complete, answerless := false, false
	if k.Deep == "" {
		if n, used, need, err := ber.Decode(b); err == nil && !need && used == len(b) {
			complete = true
			answerless = len(n.Kids) > 1 && (n.Kids[1].Tag == wire.TAbandon || n.Kids[1].Tag == wire.TUnbind)
		}
	} else {
		complete = k.Deep != "indefinite"
	}
	if complete && !k.Abrupt {
		b = append(append([]byte{}, b...), wire.Msg(c16Probe, wire.SearchOp(c17U, model.ScopeBase, 0, false, wire.FPresent("cn"), []string{"sn"})).Bytes()...)
	}
	cl.Send(b)
	success, answered, probed, entries := false, false, false, 0
	if k.Abrupt {
		cl.Close()
		<-cl.Srv.Closed
		success = true // unknown
	} else {
		cl.CloseWrite()
		for {
			n, err := cl.Recv()
			if err == io.EOF {
				break
			}
			if err == wire.ErrTimeout {
				return what + ": neither an answer nor the end of the connection"
			}
			if err != nil {
				return what + ": " + err.Error()
			}
			id, op, _, err := wire.ParseMsg(n)
			if err != nil {
				return what + ": " + err.Error()
			}
			if id == c16Probe && complete {
				if op.Tag == wire.TSearchDone {
					probed = true
				}
				continue
			}
			if op.Tag == wire.TEntry {
				if _, err := wire.ParseEntry(op); err != nil {
					return what + ": " + err.Error()
				}
				entries++
				continue
			}
			var r wire.Result
			if err := wire.ParseResult(op, &r); err != nil {
				return what + ": " + err.Error()
			}
			answered = true
			if r.Code == 0 {
				success = true
			}
		}
	}
	if probed && !answered && !answerless {
		return what + ": not answered, but the request after it is"
	}
	got, err := c16Content(x.wit[wi])
	if err != nil {
		return what + ": " + err.Error()
	}
	if got != x.content[wi] {
		if !k.Bolt || !success {
			return fmt.Sprintf("%s: content changed without success: %s", what, model.Diff(got, x.content[wi]))
		}
		x.dirty = true
	} else if k.Bolt && success && !k.Abrupt {
		x.dirty = k.Start != "anonymous" // a password may have changed
	}
	if k.Deep != "" && k.Depth <= 100 && (k.Deep == "not filter" || k.Deep == "and filter") && k.Start != "anonymous" {
		if k.Depth%2 == 0 && (!success || entries == 0) {
			return fmt.Sprintf("%s: %d entries, success %v", what, entries, success)
		}
	}
	switch {
	case k.Abrupt:
		c.Outcome("gone")
	case success:
		c.Outcome("success")
	case answered:
		c.Outcome("refused")
	case probed:
		c.Outcome("no answer needed")
	default:
		c.Outcome("closed")
	}
	if answered {
		c.Nontrivial.Add(1)
	}
	return ""
}

func c16Cases(thorough bool) (l []c16Case) {
	reqs := c16Reqs()
	type env struct {
		bolt  bool
		start string
	}
	envs := []env{{true, "admin"}, {false, "user"}, {true, "anonymous"}, {true, "user"}, {false, "anonymous"}}
	// One change.
	for _, e := range envs {
		for q, r := range reqs {
			for s := range c16Slots(r) {
				for m := 0; m < c16Count(); m++ {
					l = append(l, c16Case{Bolt: e.bolt, Start: e.start, Req: q, Slots: []int{s}, Muts: []int{m}})
				}
			}
		}
	}
	// Cut off.
	for _, e := range envs {
		for q, r := range reqs {
			for n := range r.Bytes() {
				if n > 0 {
					l = append(l, c16Case{Bolt: e.bolt, Start: e.start, Req: q, Cut: n}, c16Case{Bolt: e.bolt, Start: e.start, Req: q, Cut: n, Abrupt: true})
				}
			}
			l = append(l, c16Case{Bolt: e.bolt, Start: e.start, Req: q, Abrupt: true})
		}
	}
	// Short inputs.
	for a := 0; a < 256; a++ {
		l = append(l, c16Case{Bolt: a%2 == 0, Start: "anonymous", Garbage: []byte{byte(a)}})
		for b := 0; b < 256; b++ {
			l = append(l, c16Case{Bolt: b%2 == 0, Start: "anonymous", Garbage: []byte{byte(a), byte(b)}})
		}
	}
	// Two changes.
	pm := c16Pair()
	for ei, e := range envs {
		if !thorough && ei > 1 {
			break
		}
		for q, r := range reqs {
			n := len(c16Slots(r))
			for s := 0; s < n; s++ {
				for t := s + 1; t < n; t++ {
					for i, m := range pm {
						for j, o := range pm {
							if !thorough && (ei == 0 && (s+t+i+j)%3 != 0 || ei == 1 && (s+t+i+j)%7 != 0) {
								continue
							}
							l = append(l, c16Case{Bolt: e.bolt, Start: e.start, Req: q, Slots: []int{s, t}, Muts: []int{m, o}})
						}
					}
				}
			}
		}
	}
	return l
}

func c16DeepCases() (l []c16Case) {
	for _, d := range c16Deep {
		for _, n := range []int{1, 2, 10, 100, 1000, 20000, 3500000} {
			if n > 20000 && (d == "indefinite complete" || d == "and filter") {
				continue
			}
			l = append(l, c16Case{Bolt: true, Start: "user", Deep: d, Depth: n}, c16Case{Bolt: false, Start: "user", Deep: d, Depth: n})
		}
	}
	return l
}

func init() {
	register(&run.Check{
		ID: "C16", Level: "exploration",
		Rule:   "Every request kind with every single change (drop, repeat, empty, retag, retype, length errors, odd values, wrap, swap, ...) of every element, including elements inside of control and password values, cut off at every byte, all inputs of one and two bytes, and deeply nested inputs, in every session state on both backends; pairs of changes from a shorter list (quick: every third with the administrator, every seventh on LDIF). A request following the damaged one and a bystander on another connection are checked. Non-trivial are cases that are decoded and answered.",
		Assume: []string{"a client that sends gigabytes is outside of the bound", "what a damaged request answered with success does is judged by other properties"},
		Explore: func(c *run.Ctx) {
			cases := c16Cases(c.Thorough)
			ws := make([]*c16Worker, c.Workers)
			do := func(w, i int, k c16Case) {
				if c.Expired() || c.Enough() {
					return
				}
				c.Announce(w, k)
				if ws[w] == nil {
					var err error
					if ws[w], err = c16Open(c, w); err != nil {
						c.Errorf("%v", err)
						return
					}
				}
				if what := ws[w].judge(c, k); what != "" {
					ws[w].dirty = true
					c.Violation(keyOf(k), fmt.Sprintf("bolt=%v %s session: %s", k.Bolt, k.Start, what), k)
					if !k.Bolt {
						ws[w] = nil
					}
				}
				if i%20000 == 11 {
					_, what := k.bytes(ws[w].reqs)
					c.Sample(fmt.Sprintf("bolt=%v %s session: %s", k.Bolt, k.Start, what))
				}
			}
			c.Par(len(cases), func(w, i int) { do(w, i, cases[i]) })
			deep := c16DeepCases()
			for i, k := range deep {
				do(0, i+1, k)
			}
			c.Extra("nested_inputs", len(deep))
		},
		Replay: replayOf(func(c *run.Ctx, w int, k c16Case) string {
			x, err := c16Open(c, w)
			if err != nil {
				c.Errorf("%v", err)
				return ""
			}
			return x.judge(c, k)
		}),
	})
}
