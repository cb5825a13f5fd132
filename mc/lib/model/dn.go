// Package model is the reference directory: names, entries, requests, filters. It is written from the LDAP
// specifications and shares no code with the implementation.
package model

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Fold is the same text for all values that are equal without regard to letter case. Bytes that are not UTF-8 stay.
func Fold(s string) string {
	ascii := true
	for i := 0; i < len(s); i++ {
		ascii = ascii && s[i] < 0x80
	}
	if ascii {
		return strings.ToLower(s)
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			b.WriteByte(s[i])
			i++
			continue
		}
		min := r
		for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
			if x < min {
				min = x
			}
		}
		if min < 0x80 {
			min = unicode.ToLower(min)
		}
		b.WriteRune(min)
		i += n
	}
	return b.String()
}

// FoldEq compares without regard to letter case.
func FoldEq(a, b string) bool { return a == b || Fold(a) == Fold(b) }

// AVA is one attribute value assertion of a name.
type AVA struct{ Type, Value string }

// RDN is a relative name.
type RDN []AVA

// DN is a name, leaf first.
type DN []RDN

// ParseDN parses the string form of RFC 4514 (plus optional spaces around separators).
func ParseDN(s string) (DN, error) {
	if strings.Trim(s, " ") == "" {
		return DN{}, nil
	}
	var d DN
	var cur RDN
	i := 0
	for {
		// attribute type
		for i < len(s) && s[i] == ' ' {
			i++
		}
		st := i
		for i < len(s) && s[i] != '=' && s[i] != ',' && s[i] != '+' && s[i] != '\\' {
			i++
		}
		if i >= len(s) || s[i] != '=' {
			return nil, fmt.Errorf("no '=' in %q", s)
		}
		typ := strings.Trim(s[st:i], " ")
		if typ == "" {
			return nil, fmt.Errorf("empty type in %q", s)
		}
		i++
		for i < len(s) && s[i] == ' ' {
			i++
		}
		var val []byte
		keep := 0 // val must not be trimmed below this length
		for i < len(s) && s[i] != ',' && s[i] != '+' && s[i] != ';' {
			if s[i] == '\\' {
				if i+1 >= len(s) {
					return nil, fmt.Errorf("trailing escape in %q", s)
				}
				if h, ok := hexByte(s[i+1:]); ok {
					val = append(val, h)
					i += 3
				} else if strings.IndexByte(` "#+,;<=>\`, s[i+1]) >= 0 {
					val = append(val, s[i+1])
					i += 2
				} else {
					return nil, fmt.Errorf("bad escape in %q", s)
				}
				keep = len(val)
				continue
			}
			val = append(val, s[i])
			if s[i] != ' ' {
				keep = len(val)
			}
			i++
		}
		val = val[:keep]
		cur = append(cur, AVA{typ, string(val)})
		if i >= len(s) {
			d = append(d, cur)
			return d, nil
		}
		if s[i] == '+' {
			i++
			continue
		}
		d = append(d, cur)
		cur = nil
		i++
	}
}

func hexByte(s string) (byte, bool) {
	if len(s) < 2 {
		return 0, false
	}
	h, l := hexVal(s[0]), hexVal(s[1])
	if h < 0 || l < 0 {
		return 0, false
	}
	return byte(h<<4 | l), true
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// Key is an unambiguous canonical encoding: names are the same entry exactly if their keys are equal.
func (d DN) Key() string {
	var b strings.Builder
	for _, r := range d {
		b.WriteString("(")
		for _, a := range r {
			fmt.Fprintf(&b, "%q=%q;", strings.ToLower(a.Type), Fold(a.Value))
		}
		b.WriteString(")")
	}
	return b.String()
}

// Parent is the name without its first component.
func (d DN) Parent() DN {
	if len(d) == 0 {
		return nil
	}
	return d[1:]
}

// Under reports whether d equals or lies below base.
func (d DN) Under(base DN) bool {
	if len(d) < len(base) {
		return false
	}
	return DN(d[len(d)-len(base):]).Key() == base.Key()
}

// Attr is an attribute.
type Attr struct {
	Name   string
	Values []string
}

// Entry is a directory entry.
type Entry struct {
	DN    DN
	Attrs []Attr
}

// Clone copies deeply.
func (e *Entry) Clone() *Entry {
	c := &Entry{DN: e.DN}
	for _, a := range e.Attrs {
		c.Attrs = append(c.Attrs, Attr{a.Name, append([]string{}, a.Values...)})
	}
	return c
}

// Get returns the values of an attribute.
func (e *Entry) Get(name string) []string {
	for _, a := range e.Attrs {
		if strings.EqualFold(a.Name, name) {
			return a.Values
		}
	}
	return nil
}

func (e *Entry) idx(name string) int {
	for i, a := range e.Attrs {
		if strings.EqualFold(a.Name, name) {
			return i
		}
	}
	return -1
}

func hasFold(vals []string, v string) bool {
	for _, x := range vals {
		if FoldEq(x, v) {
			return true
		}
	}
	return false
}

// Change kinds.
const (
	Add     = 0
	Delete  = 1
	Replace = 2
)

// Change is one modification.
type Change struct {
	Op   int
	Name string
	Vals []string
}

// Modify applies changes in order. ok is false if a naming value would be lost; e is then unchanged.
func (e *Entry) Modify(ch []Change) (res *Entry, ok bool) { return e.modify(ch, true) }

// ModifyNet is Modify for readers who only require naming values to be there in the end.
func (e *Entry) ModifyNet(ch []Change) (res *Entry, ok bool) { return e.modify(ch, false) }

func (e *Entry) modify(ch []Change, strict bool) (res *Entry, ok bool) {
	n := e.Clone()
	for _, c := range ch {
		i := n.idx(c.Name)
		switch c.Op {
		case Add:
			if i < 0 {
				if len(c.Vals) > 0 {
					n.Attrs = append(n.Attrs, Attr{c.Name, append([]string{}, c.Vals...)})
				}
				break
			}
			for _, v := range c.Vals {
				if !hasFold(n.Attrs[i].Values, v) {
					n.Attrs[i].Values = append(n.Attrs[i].Values, v)
				}
			}
		case Replace:
			if len(c.Vals) == 0 {
				if i >= 0 {
					n.Attrs = append(n.Attrs[:i:i], n.Attrs[i+1:]...)
				}
				break
			}
			if i >= 0 {
				n.Attrs[i].Values = append([]string{}, c.Vals...)
			} else {
				n.Attrs = append(n.Attrs, Attr{c.Name, append([]string{}, c.Vals...)})
			}
		case Delete:
			if i < 0 {
				break
			}
			if len(c.Vals) == 0 {
				n.Attrs = append(n.Attrs[:i:i], n.Attrs[i+1:]...)
				break
			}
			var keep []string
			for _, v := range n.Attrs[i].Values {
				if !hasFold(c.Vals, v) {
					keep = append(keep, v)
				}
			}
			if len(keep) == 0 {
				n.Attrs = append(n.Attrs[:i:i], n.Attrs[i+1:]...)
			} else {
				n.Attrs[i].Values = keep
			}
		default: // there are no other kinds
			return e, false
		}
		if strict && !n.namingKept(e) {
			return e, false
		}
	}
	if !n.namingKept(e) {
		return e, false
	}
	return n, true
}

// namingKept: every naming value the old entry had is still there.
func (n *Entry) namingKept(old *Entry) bool {
	if len(n.DN) == 0 {
		return true
	}
	for _, a := range n.DN[0] {
		if hasFold(old.Get(a.Type), a.Value) && !hasFold(n.Get(a.Type), a.Value) {
			return false
		}
	}
	return true
}

// Tree is the reference directory.
type Tree struct {
	Base DN
	E    map[string]*Entry
}

// NewTree is an empty directory.
func NewTree(base string) *Tree {
	b, err := ParseDN(base)
	if err != nil {
		panic(err)
	}
	return &Tree{Base: b, E: map[string]*Entry{}}
}

// Clone shares entries, which are never changed in place.
func (t *Tree) Clone() *Tree {
	c := &Tree{Base: t.Base, E: make(map[string]*Entry, len(t.E))}
	for k, v := range t.E {
		c.E[k] = v
	}
	return c
}

// Get finds an entry.
func (t *Tree) Get(dn string) *Entry {
	d, err := ParseDN(dn)
	if err != nil {
		return nil
	}
	return t.E[d.Key()]
}

func (t *Tree) hasChildren(d DN) bool {
	for _, e := range t.E {
		if len(e.DN) == len(d)+1 && e.DN.Parent().Key() == d.Key() {
			return true
		}
	}
	return false
}

// Add adds an entry; false if not allowed.
func (t *Tree) Add(dn string, attrs []Attr) bool {
	d, err := ParseDN(dn)
	if err != nil || len(d) == 0 || !d.Under(t.Base) || t.E[d.Key()] != nil {
		return false
	}
	if d.Key() != t.Base.Key() && t.E[d.Parent().Key()] == nil {
		return false
	}
	e := &Entry{DN: d}
	for _, a := range attrs {
		e.Attrs = append(e.Attrs, Attr{a.Name, append([]string{}, a.Values...)})
	}
	t.E[d.Key()] = e
	return true
}

// Delete removes a leaf.
func (t *Tree) Delete(dn string) bool {
	d, err := ParseDN(dn)
	if err != nil || t.E[d.Key()] == nil || t.hasChildren(d) || d.Key() == t.Base.Key() {
		return false
	}
	delete(t.E, d.Key())
	return true
}

// Modify changes an entry.
func (t *Tree) Modify(dn string, ch []Change) bool {
	d, err := ParseDN(dn)
	if err != nil || t.E[d.Key()] == nil {
		return false
	}
	n, ok := t.E[d.Key()].Modify(ch)
	if ok {
		t.E[d.Key()] = n
	}
	return ok
}

// Rename gives a leaf another relative name.
func (t *Tree) Rename(dn, newRDN string, delOld bool) bool {
	d, err := ParseDN(dn)
	if err != nil || t.E[d.Key()] == nil || d.Key() == t.Base.Key() {
		return false
	}
	r, err := ParseDN(newRDN)
	if err != nil || len(r) != 1 {
		return false
	}
	nd := append(DN{r[0]}, d[1:]...)
	if t.E[nd.Key()] != nil || t.hasChildren(d) {
		return false
	}
	e := t.E[d.Key()].Clone()
	if delOld {
		for _, a := range d[0] {
			i := e.idx(a.Type)
			if i < 0 {
				continue
			}
			var keep []string
			for _, v := range e.Attrs[i].Values {
				if !FoldEq(v, a.Value) || rdnHas(r[0], a) {
					keep = append(keep, v)
				}
			}
			if len(keep) == 0 {
				e.Attrs = append(e.Attrs[:i:i], e.Attrs[i+1:]...)
			} else {
				e.Attrs[i].Values = keep
			}
		}
	}
	for _, a := range r[0] {
		i := e.idx(a.Type)
		if i < 0 {
			e.Attrs = append(e.Attrs, Attr{a.Type, []string{a.Value}})
		} else if !hasFold(e.Attrs[i].Values, a.Value) {
			e.Attrs[i].Values = append(e.Attrs[i].Values, a.Value)
		}
	}
	e.DN = nd
	delete(t.E, d.Key())
	t.E[nd.Key()] = e
	return true
}

func rdnHas(r RDN, a AVA) bool {
	for _, x := range r {
		if strings.EqualFold(x.Type, a.Type) && FoldEq(x.Value, a.Value) {
			return true
		}
	}
	return false
}

// Canon renders an entry: attribute names folded, attributes and values sorted.
func Canon(key string, attrs []Attr) string {
	m := map[string][]string{}
	for _, a := range attrs {
		n := strings.ToLower(a.Name)
		m[n] = append(m[n], a.Values...)
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString(key)
	for _, k := range ks {
		v := m[k]
		sort.Strings(v)
		fmt.Fprintf(&b, " %s:%q", k, v)
	}
	return b.String()
}

// CanonEntry renders e.
func CanonEntry(e *Entry) string { return Canon(e.DN.Key(), e.Attrs) }

// Canon renders the directory.
func (t *Tree) Canon() string {
	var l []string
	for _, e := range t.E {
		l = append(l, CanonEntry(e))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Search scopes.
const (
	ScopeBase = 0
	ScopeOne  = 1
	ScopeSub  = 2
)

// InScope returns the entries in scope, sorted by key.
func (t *Tree) InScope(base string, scope int) []*Entry {
	d, err := ParseDN(base)
	if err != nil || t.E[d.Key()] == nil {
		return nil
	}
	var r []*Entry
	for k, e := range t.E {
		switch scope {
		case ScopeBase:
			if k == d.Key() {
				r = append(r, e)
			}
		case ScopeOne:
			if len(e.DN) == len(d)+1 && e.DN.Under(d) {
				r = append(r, e)
			}
		case ScopeSub:
			if e.DN.Under(d) {
				r = append(r, e)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].DN.Key() < r[j].DN.Key() })
	return r
}
