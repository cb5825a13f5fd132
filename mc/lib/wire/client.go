package wire

import (
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"idmverif/lib/ber"
)

// rw is what a client needs of its connection.
type rw interface {
	write(b []byte) (int, error)
	readTimeout(b []byte, d time.Duration) (int, error)
	close()
}

type netRW struct{ c net.Conn }

func (n netRW) write(b []byte) (int, error) { return n.c.Write(b) }
func (n netRW) readTimeout(b []byte, d time.Duration) (int, error) {
	n.c.SetReadDeadline(time.Now().Add(d))
	k, err := n.c.Read(b)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return k, ErrTimeout
	}
	if err != nil && k == 0 {
		return 0, io.EOF
	}
	return k, nil
}
func (n netRW) close() { n.c.Close() }

// Client is an LDAP client.
type Client struct {
	Srv     *ServerConn // nil on real sockets
	w       rw
	r       rw
	buf     []byte
	NextID  int64
	Timeout time.Duration
	EOF     bool
}

// NetClient wraps a real connection.
func NetClient(c net.Conn) *Client {
	return &Client{w: netRW{c}, r: netRW{c}, Timeout: DefaultTimeout}
}

// Close disconnects the client.
func (c *Client) Close() {
	c.w.close()
	if c.r != c.w {
		c.r.close()
	}
}

// CloseWrite signals EOF to the server but keeps reading.
func (c *Client) CloseWrite() { c.w.close() }

// Break makes server writes fail.
func (c *Client) Break() {
	h := c.r.(*half)
	h.mu.Lock()
	h.broken = true
	h.mu.Unlock()
}

// Send sends raw bytes.
func (c *Client) Send(b []byte) error { _, err := c.w.write(b); return err }

// Recv reads one BER element; io.EOF at end.
func (c *Client) Recv() (*ber.Node, error) {
	for {
		if len(c.buf) > 0 {
			n, used, need, err := ber.Decode(c.buf)
			if err != nil {
				return nil, fmt.Errorf("undecodable answer % x: %w", c.buf, err)
			}
			if !need {
				c.buf = c.buf[used:]
				return n, nil
			}
		}
		tmp := make([]byte, 16384)
		k, err := c.r.readTimeout(tmp, c.Timeout)
		c.buf = append(c.buf, tmp[:k]...)
		if err != nil {
			if err == io.EOF {
				c.EOF = true
				if len(c.buf) > 0 {
					return nil, fmt.Errorf("answer cut off: % x", c.buf)
				}
			}
			return nil, err
		}
	}
}

// Attr is an attribute with its values.
type Attr struct {
	Name   string
	Values []string
}

// Entry is a directory entry.
type Entry struct {
	DN    string
	Attrs []Attr
}

// Control is a request or response control.
type Control struct {
	OID      string
	Critical bool
	Value    []byte
	HasValue bool
}

// Result is the answer to one request.
type Result struct {
	Code     int64 // -1: connection closed without an answer, -2: timeout, -3: protocol error
	Matched  string
	Msg      string
	Entries  []Entry
	Refs     int
	Controls []Control
	Value    []byte // extended response value, nil if absent
	HasValue bool
	Proto    string // description of protocol trouble
}

const (
	CodeClosed  = -1
	CodeTimeout = -2
	CodeProto   = -3
)

// OK reports success.
func (r Result) OK() bool { return r.Code == 0 }

// Application tags.
const (
	TBind       = 0x60
	TBindResp   = 0x61
	TUnbind     = 0x42
	TSearch     = 0x63
	TEntry      = 0x64
	TSearchDone = 0x65
	TModify     = 0x66
	TModifyResp = 0x67
	TAdd        = 0x68
	TAddResp    = 0x69
	TDel        = 0x4a
	TDelResp    = 0x6b
	TModDN      = 0x6c
	TModDNResp  = 0x6d
	TCompare    = 0x6e
	TCompareRsp = 0x6f
	TAbandon    = 0x50
	TRef        = 0x73
	TExt        = 0x77
	TExtResp    = 0x78
)

// RespTag is the answer type for a request type, 0 if it has none.
func RespTag(op byte) byte {
	switch op {
	case TBind:
		return TBindResp
	case TSearch:
		return TSearchDone
	case TModify:
		return TModifyResp
	case TAdd:
		return TAddResp
	case TDel:
		return TDelResp
	case TModDN:
		return TModDNResp
	case TCompare:
		return TCompareRsp
	case TExt:
		return TExtResp
	}
	return 0
}

// Msg wraps an operation.
func Msg(id int64, op *ber.Node, ctrls ...Control) *ber.Node {
	m := ber.Seq(ber.Int(id), op)
	if len(ctrls) > 0 {
		cs := ber.Cons(0xa0)
		for _, c := range ctrls {
			cn := ber.Seq(ber.Str(c.OID))
			if c.Critical {
				cn.Kids = append(cn.Kids, ber.Bool(true))
			}
			if c.HasValue {
				cn.Kids = append(cn.Kids, ber.Prim(0x04, c.Value))
			}
			cs.Kids = append(cs.Kids, cn)
		}
		m.Kids = append(m.Kids, cs)
	}
	return m
}

// ParseMsg splits an answer into id, operation and controls.
func ParseMsg(n *ber.Node) (id int64, op *ber.Node, ctrls []Control, err error) {
	if n.Tag != 0x30 || len(n.Kids) < 2 || len(n.Kids) > 3 || n.Kids[0].Tag != 0x02 {
		return 0, nil, nil, fmt.Errorf("not an LDAP message: % x", n.Bytes())
	}
	id = n.Kids[0].IntVal()
	op = n.Kids[1]
	if len(n.Kids) == 3 {
		if n.Kids[2].Tag != 0xa0 {
			return 0, nil, nil, fmt.Errorf("bad controls tag %x", n.Kids[2].Tag)
		}
		for _, k := range n.Kids[2].Kids {
			var c Control
			if k.Tag != 0x30 || len(k.Kids) < 1 || k.Kids[0].Tag != 0x04 {
				return 0, nil, nil, fmt.Errorf("bad control: % x", k.Bytes())
			}
			c.OID = string(k.Kids[0].Val)
			for _, x := range k.Kids[1:] {
				switch x.Tag {
				case 0x01:
					c.Critical = len(x.Val) > 0 && x.Val[0] != 0
				case 0x04:
					c.Value, c.HasValue = x.Val, true
				default:
					return 0, nil, nil, fmt.Errorf("bad control part: % x", x.Bytes())
				}
			}
			ctrls = append(ctrls, c)
		}
	}
	return id, op, ctrls, nil
}

// ParseResult reads an LDAPResult-shaped operation.
func ParseResult(op *ber.Node, r *Result) error {
	if len(op.Kids) < 3 || op.Kids[0].Tag != 0x0a || op.Kids[1].Tag != 0x04 || op.Kids[2].Tag != 0x04 {
		return fmt.Errorf("not an LDAP result: % x", op.Bytes())
	}
	r.Code = op.Kids[0].IntVal()
	r.Matched = string(op.Kids[1].Val)
	r.Msg = string(op.Kids[2].Val)
	for _, k := range op.Kids[3:] {
		if k.Tag == 0x8b || k.Tag == 0x04 || k.Tag == 0xab {
			r.HasValue = true
			if k.Constructed() {
				for _, kk := range k.Kids {
					r.Value = append(r.Value, kk.Bytes()...)
				}
			} else {
				r.Value = k.Val
			}
		}
	}
	return nil
}

// ParseEntry reads a search result entry.
func ParseEntry(op *ber.Node) (Entry, error) {
	var e Entry
	if len(op.Kids) != 2 || op.Kids[0].Tag != 0x04 || op.Kids[1].Tag != 0x30 {
		return e, fmt.Errorf("not an entry: % x", op.Bytes())
	}
	e.DN = string(op.Kids[0].Val)
	for _, a := range op.Kids[1].Kids {
		if a.Tag != 0x30 || len(a.Kids) != 2 || a.Kids[0].Tag != 0x04 || a.Kids[1].Tag != 0x31 {
			return e, fmt.Errorf("bad attribute: % x", a.Bytes())
		}
		at := Attr{Name: string(a.Kids[0].Val)}
		for _, v := range a.Kids[1].Kids {
			if v.Tag != 0x04 {
				return e, fmt.Errorf("bad value: % x", a.Bytes())
			}
			at.Values = append(at.Values, string(v.Val))
		}
		e.Attrs = append(e.Attrs, at)
	}
	return e, nil
}

// Do sends one operation and collects its answer.
func (c *Client) Do(op *ber.Node, ctrls ...Control) Result {
	c.NextID++
	id := c.NextID
	if err := c.Send(Msg(id, op, ctrls...).Bytes()); err != nil {
		return Result{Code: CodeClosed, Proto: "send: " + err.Error()}
	}
	return c.Await(id, RespTag(op.Tag))
}

// Await reads until the final answer of the given type and id.
func (c *Client) Await(id int64, tag byte) Result {
	var r Result
	for {
		n, err := c.Recv()
		if err != nil {
			switch {
			case err == io.EOF:
				r.Code = CodeClosed
			case errors.Is(err, ErrTimeout):
				r.Code = CodeTimeout
				r.Proto = "no answer"
			default:
				r.Code = CodeProto
				r.Proto = err.Error()
			}
			return r
		}
		mid, mop, mc, err := ParseMsg(n)
		if err == nil && mid != id {
			err = fmt.Errorf("answer for message %d while waiting for %d", mid, id)
		}
		if err != nil {
			r.Code, r.Proto = CodeProto, err.Error()
			return r
		}
		switch mop.Tag {
		case TEntry:
			e, err := ParseEntry(mop)
			if err != nil {
				r.Code, r.Proto = CodeProto, err.Error()
				return r
			}
			r.Entries = append(r.Entries, e)
			continue
		case TRef:
			r.Refs++
			continue
		}
		r.Controls = mc
		if mop.Tag != tag {
			r.Proto = fmt.Sprintf("answer type %#x instead of %#x", mop.Tag, tag)
			r.Code = CodeProto
			return r
		}
		if err := ParseResult(mop, &r); err != nil {
			r.Code, r.Proto = CodeProto, err.Error()
		}
		return r
	}
}

// Operations.

func BindOp(dn, pw string) *ber.Node {
	return ber.Cons(TBind, ber.Int(3), ber.Str(dn), ber.StrT(0x80, pw))
}

func SASLBindOp(dn, mech, cred string) *ber.Node {
	return ber.Cons(TBind, ber.Int(3), ber.Str(dn), ber.Cons(0xa3, ber.Str(mech), ber.Str(cred)))
}

func AttrNode(a Attr) *ber.Node {
	s := ber.Set()
	for _, v := range a.Values {
		s.Kids = append(s.Kids, ber.Str(v))
	}
	return ber.Seq(ber.Str(a.Name), s)
}

func AddOp(dn string, attrs []Attr) *ber.Node {
	l := ber.Seq()
	for _, a := range attrs {
		l.Kids = append(l.Kids, AttrNode(a))
	}
	return ber.Cons(TAdd, ber.Str(dn), l)
}

func DelOp(dn string) *ber.Node { return ber.StrT(TDel, dn) }

// Change kinds of modify.
const (
	ModAdd     = 0
	ModDelete  = 1
	ModReplace = 2
)

// Change is one modification.
type Change struct {
	Op   int
	Attr Attr
}

func ModifyOp(dn string, ch []Change) *ber.Node {
	l := ber.Seq()
	for _, c := range ch {
		l.Kids = append(l.Kids, ber.Seq(ber.Enum(int64(c.Op)), AttrNode(c.Attr)))
	}
	return ber.Cons(TModify, ber.Str(dn), l)
}

func ModDNOp(dn, newRDN string, delOld bool, newSup *string) *ber.Node {
	n := ber.Cons(TModDN, ber.Str(dn), ber.Str(newRDN), ber.Bool(delOld))
	if newSup != nil {
		n.Kids = append(n.Kids, ber.StrT(0x80, *newSup))
	}
	return n
}

func CompareOp(dn, attr, val string) *ber.Node {
	return ber.Cons(TCompare, ber.Str(dn), ber.Seq(ber.Str(attr), ber.Str(val)))
}

func UnbindOp() *ber.Node          { return ber.Prim(TUnbind, nil) }
func AbandonOp(id int64) *ber.Node { return ber.Prim(TAbandon, ber.IntBytes(id)) }

// SearchOp builds a search; filter is an encoded filter element.
func SearchOp(base string, scope, sizeLimit int, typesOnly bool, filter *ber.Node, attrs []string) *ber.Node {
	al := ber.Seq()
	for _, a := range attrs {
		al.Kids = append(al.Kids, ber.Str(a))
	}
	return ber.Cons(TSearch, ber.Str(base), ber.Enum(int64(scope)), ber.Enum(0), ber.Int(int64(sizeLimit)), ber.Int(0), ber.Bool(typesOnly), filter, al)
}

// Tune sets how aliases are treated and the time limit of a search request.
func Tune(op *ber.Node, deref, time int) *ber.Node {
	op.Kids[2], op.Kids[4] = ber.Enum(int64(deref)), ber.Int(int64(time))
	return op
}

// PWMod OID.
const PwModOID = "1.3.6.1.4.1.4203.1.11.1"

// PwModOp builds a password modify request; nil parts are absent. A request without any part has no value unless emptySeq.
func PwModOp(user, old, nw *string, emptySeq bool) *ber.Node {
	s := ber.Seq()
	if user != nil {
		s.Kids = append(s.Kids, ber.StrT(0x80, *user))
	}
	if old != nil {
		s.Kids = append(s.Kids, ber.StrT(0x81, *old))
	}
	if nw != nil {
		s.Kids = append(s.Kids, ber.StrT(0x82, *nw))
	}
	n := ber.Cons(TExt, ber.StrT(0x80, PwModOID))
	if len(s.Kids) > 0 || emptySeq {
		n.Kids = append(n.Kids, ber.Prim(0x81, s.Bytes()))
	}
	return n
}

func ExtOp(oid string, val []byte) *ber.Node {
	n := ber.Cons(TExt, ber.StrT(0x80, oid))
	if val != nil {
		n.Kids = append(n.Kids, ber.Prim(0x81, val))
	}
	return n
}

// Filters.

func FAnd(f ...*ber.Node) *ber.Node { return ber.Cons(0xa0, f...) }
func FOr(f ...*ber.Node) *ber.Node  { return ber.Cons(0xa1, f...) }
func FNot(f *ber.Node) *ber.Node    { return ber.Cons(0xa2, f) }
func FEq(a, v string) *ber.Node     { return ber.Cons(0xa3, ber.Str(a), ber.Str(v)) }
func FPresent(a string) *ber.Node   { return ber.StrT(0x87, a) }

// FSub builds a substring filter; empty initial/final are absent.
func FSub(a, initial string, any []string, final string) *ber.Node {
	s := ber.Seq()
	if initial != "" {
		s.Kids = append(s.Kids, ber.StrT(0x80, initial))
	}
	for _, x := range any {
		s.Kids = append(s.Kids, ber.StrT(0x81, x))
	}
	if final != "" {
		s.Kids = append(s.Kids, ber.StrT(0x82, final))
	}
	return ber.Cons(0xa4, ber.Str(a), s)
}

// Convenience.

func (c *Client) Bind(dn, pw string) Result { return c.Do(BindOp(dn, pw)) }
func (c *Client) Search(base string, scope int, f *ber.Node, attrs ...string) Result {
	return c.Do(SearchOp(base, scope, 0, false, f, attrs))
}

// PagingOID is the simple paged results control.
const PagingOID = "1.2.840.113556.1.4.319"

// Paging builds the paged results control.
func Paging(size int64, cookie []byte) Control {
	return Control{OID: PagingOID, HasValue: true, Value: ber.Seq(ber.Int(size), ber.Prim(0x04, cookie)).Bytes()}
}

// PagingOf extracts the paging answer.
func PagingOf(r Result) (size int64, cookie []byte, ok bool) {
	for _, c := range r.Controls {
		if c.OID == PagingOID {
			n, _, _, err := ber.Decode(c.Value)
			if err != nil || n == nil || len(n.Kids) != 2 {
				return 0, nil, false
			}
			return n.Kids[0].IntVal(), n.Kids[1].Val, true
		}
	}
	return 0, nil, false
}

// Recorded makes a client that reads what a server has written before.
func Recorded(b []byte) *Client {
	h := newHalf()
	h.buf, h.closed = b, true
	return &Client{w: newHalf(), r: h, Timeout: DefaultTimeout}
}

// Unread is the number of bytes of a recorded client that have not been used.
func (c *Client) Unread() int {
	h := c.r.(*half)
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.buf) + len(c.buf)
}
