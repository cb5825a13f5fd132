package model

import (
	"fmt"
	"sort"
	"strings"

	"idmverif/lib/wire"
)

// FromWire converts a returned entry; ok is false if its name does not parse.
func FromWire(e wire.Entry) (*Entry, bool) {
	d, err := ParseDN(e.DN)
	if err != nil {
		return nil, false
	}
	r := &Entry{DN: d}
	for _, a := range e.Attrs {
		r.Attrs = append(r.Attrs, Attr{a.Name, a.Values})
	}
	return r, true
}

// ToWire converts attributes.
func ToWire(a []Attr) []wire.Attr {
	var r []wire.Attr
	for _, x := range a {
		r = append(r, wire.Attr{Name: x.Name, Values: x.Values})
	}
	return r
}

// ToChanges converts changes.
func ToChanges(ch []Change) []wire.Change {
	var r []wire.Change
	for _, c := range ch {
		r = append(r, wire.Change{Op: c.Op, Attr: wire.Attr{Name: c.Name, Values: c.Vals}})
	}
	return r
}

// CanonWire renders returned entries the way Tree.Canon does; duplicates stay visible.
func CanonWire(es []wire.Entry) string {
	var l []string
	for _, e := range es {
		m, ok := FromWire(e)
		if !ok {
			l = append(l, fmt.Sprintf("unparsable name %q", e.DN))
			continue
		}
		l = append(l, CanonEntry(m))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// CanonEntries renders model entries.
func CanonEntries(es []*Entry) string {
	var l []string
	for _, e := range es {
		l = append(l, CanonEntry(e))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Diff shows the lines in which two renderings differ.
func Diff(got, want string) string {
	g, w := map[string]int{}, map[string]int{}
	for _, l := range strings.Split(got, "\n") {
		g[l]++
	}
	for _, l := range strings.Split(want, "\n") {
		w[l]++
	}
	var r []string
	for l, n := range g {
		if n > w[l] && l != "" {
			r = append(r, "unexpected: "+l)
		}
	}
	for l, n := range w {
		if n > g[l] && l != "" {
			r = append(r, "missing: "+l)
		}
	}
	sort.Strings(r)
	s := strings.Join(r, " | ")
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}
