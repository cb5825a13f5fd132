package model

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"idmverif/lib/ber"
	"idmverif/lib/wire"
)

// Filter kinds.
const (
	FAnd     = '&'
	FOr      = '|'
	FNot     = '!'
	FEq      = '='
	FPresent = '*'
	FSub     = 's'
)

// Filter is a search filter.
type Filter struct {
	Kind    byte
	Subs    []*Filter
	Attr    string
	Value   string
	Initial string
	Any     []string
	Final   string
}

type filterJSON struct {
	Kind    string    `json:"k"`
	Subs    []*Filter `json:"f,omitempty"`
	Attr    string    `json:"a,omitempty"`
	Value   string    `json:"v,omitempty"`
	Initial string    `json:"i,omitempty"`
	Any     []string  `json:"m,omitempty"`
	Final   string    `json:"e,omitempty"`
}

func quote(s string) string {
	q := strconv.QuoteToASCII(s)
	return q[1 : len(q)-1]
}

func unquote(s string) string {
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return s
	}
	return u
}

// MarshalJSON keeps values that are not text.
func (f *Filter) MarshalJSON() ([]byte, error) {
	j := filterJSON{string([]byte{f.Kind}), f.Subs, f.Attr, quote(f.Value), quote(f.Initial), nil, quote(f.Final)}
	for _, a := range f.Any {
		j.Any = append(j.Any, quote(a))
	}
	return json.Marshal(j)
}

// UnmarshalJSON reads what MarshalJSON writes.
func (f *Filter) UnmarshalJSON(b []byte) error {
	var j filterJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	if len(j.Kind) != 1 {
		return fmt.Errorf("filter kind %q", j.Kind)
	}
	*f = Filter{Kind: j.Kind[0], Subs: j.Subs, Attr: j.Attr, Value: unquote(j.Value), Initial: unquote(j.Initial), Final: unquote(j.Final)}
	for _, a := range j.Any {
		f.Any = append(f.Any, unquote(a))
	}
	return nil
}

// Match evaluates f on e.
func (f *Filter) Match(e *Entry) bool {
	switch f.Kind {
	case FAnd:
		for _, s := range f.Subs {
			if !s.Match(e) {
				return false
			}
		}
		return true
	case FOr:
		for _, s := range f.Subs {
			if s.Match(e) {
				return true
			}
		}
		return false
	case FNot:
		return !f.Subs[0].Match(e)
	case FEq:
		for _, v := range e.Get(f.Attr) {
			if FoldEq(v, f.Value) {
				return true
			}
		}
		return false
	case FPresent:
		return strings.EqualFold(f.Attr, "objectClass") || len(e.Get(f.Attr)) > 0
	case FSub:
		for _, v := range e.Get(f.Attr) {
			if f.matchSub(Fold(v)) {
				return true
			}
		}
		return false
	}
	panic("filter kind")
}

func (f *Filter) matchSub(v string) bool {
	i := Fold(f.Initial)
	if !strings.HasPrefix(v, i) {
		return false
	}
	v = v[len(i):]
	for _, a := range f.Any {
		a = Fold(a)
		p := strings.Index(v, a)
		if p < 0 {
			return false
		}
		v = v[p+len(a):]
	}
	return strings.HasSuffix(v, Fold(f.Final))
}

// Node encodes f.
func (f *Filter) Node() *ber.Node {
	var subs []*ber.Node
	for _, s := range f.Subs {
		subs = append(subs, s.Node())
	}
	switch f.Kind {
	case FAnd:
		return wire.FAnd(subs...)
	case FOr:
		return wire.FOr(subs...)
	case FNot:
		return wire.FNot(subs[0])
	case FEq:
		return wire.FEq(f.Attr, f.Value)
	case FPresent:
		return wire.FPresent(f.Attr)
	case FSub:
		return wire.FSub(f.Attr, f.Initial, f.Any, f.Final)
	}
	panic("filter kind")
}

func (f *Filter) String() string {
	switch f.Kind {
	case FAnd, FOr, FNot:
		s := "(" + string(f.Kind)
		for _, x := range f.Subs {
			s += x.String()
		}
		return s + ")"
	case FEq:
		return fmt.Sprintf("(%s=%s)", f.Attr, f.Value)
	case FPresent:
		return fmt.Sprintf("(%s=*)", f.Attr)
	}
	s := f.Initial + "*"
	for _, a := range f.Any {
		s += a + "*"
	}
	return fmt.Sprintf("(%s=%s%s)", f.Attr, s, f.Final)
}
