// Package ber is a minimal BER encoder and decoder, independent of the one used by the code under test.
package ber

import "fmt"

// Node is a BER element. Constructed elements have Kids, others have Val. Raw overrides everything when encoding.
type Node struct {
	Tag  byte // full identifier octet
	Val  []byte
	Kids []*Node
	// Encoding overrides, for malformed input.
	Raw      []byte // emit exactly these bytes
	LenDelta int    // added to the encoded length octet value
	LongLen  int    // use that many length octets (0: shortest)
}

// Constructed reports whether the identifier octet has the constructed bit.
func (n *Node) Constructed() bool { return n.Tag&0x20 != 0 }

// Bytes encodes n.
func (n *Node) Bytes() []byte {
	if n.Raw != nil {
		return n.Raw
	}
	body := n.Val
	if len(n.Kids) > 0 {
		body = append([]byte{}, n.Val...)
		for _, k := range n.Kids {
			body = append(body, k.Bytes()...)
		}
	}
	out := []byte{n.Tag}
	out = append(out, encLen(len(body)+n.LenDelta, n.LongLen)...)
	return append(out, body...)
}

func encLen(l, octets int) []byte {
	if l < 0 {
		l = 0
	}
	if octets == 0 && l < 128 {
		return []byte{byte(l)}
	}
	var b []byte
	for x := l; x > 0; x >>= 8 {
		b = append([]byte{byte(x)}, b...)
	}
	for len(b) < octets {
		b = append([]byte{0}, b...)
	}
	if len(b) == 0 {
		b = []byte{0}
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

// Clone copies n deeply.
func (n *Node) Clone() *Node {
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return &c
}

// Constructors.

func Seq(kids ...*Node) *Node            { return &Node{Tag: 0x30, Kids: kids} }
func Set(kids ...*Node) *Node            { return &Node{Tag: 0x31, Kids: kids} }
func Cons(tag byte, kids ...*Node) *Node { return &Node{Tag: tag, Kids: kids} }
func Prim(tag byte, v []byte) *Node      { return &Node{Tag: tag, Val: v} }
func Str(s string) *Node                 { return &Node{Tag: 0x04, Val: []byte(s)} }
func StrT(tag byte, s string) *Node      { return &Node{Tag: tag, Val: []byte(s)} }
func Bool(b bool) *Node {
	if b {
		return &Node{Tag: 0x01, Val: []byte{0xff}}
	}
	return &Node{Tag: 0x01, Val: []byte{0}}
}
func Int(i int64) *Node  { return &Node{Tag: 0x02, Val: IntBytes(i)} }
func Enum(i int64) *Node { return &Node{Tag: 0x0a, Val: IntBytes(i)} }

// IntBytes is the minimal two's complement encoding.
func IntBytes(i int64) []byte {
	n := 1
	for x := i; x > 127 || x < -128; x >>= 8 {
		n++
	}
	b := make([]byte, n)
	for k := n - 1; k >= 0; k-- {
		b[k] = byte(i)
		i >>= 8
	}
	return b
}

// IntVal decodes a two's complement integer.
func (n *Node) IntVal() int64 {
	var r int64
	for i, b := range n.Val {
		if i == 0 && b&0x80 != 0 {
			r = -1
		}
		r = r<<8 | int64(b)
	}
	return r
}

// Decode parses one element from b, returning it and the number of bytes used. need>0 means more bytes are required.
func Decode(b []byte) (n *Node, used int, need bool, err error) {
	if len(b) < 2 {
		return nil, 0, true, nil
	}
	tag := b[0]
	if tag&0x1f == 0x1f {
		return nil, 0, false, fmt.Errorf("multi-byte tag")
	}
	l := int(b[1])
	p := 2
	if l == 0x80 {
		return nil, 0, false, fmt.Errorf("indefinite length")
	}
	if l > 0x80 {
		k := l & 0x7f
		if k > 4 {
			return nil, 0, false, fmt.Errorf("length of %d octets", k)
		}
		if len(b) < 2+k {
			return nil, 0, true, nil
		}
		l = 0
		for i := 0; i < k; i++ {
			l = l<<8 | int(b[2+i])
		}
		p += k
	}
	if len(b) < p+l {
		return nil, 0, true, nil
	}
	n = &Node{Tag: tag}
	body := b[p : p+l]
	if tag&0x20 == 0 {
		n.Val = append([]byte{}, body...)
		return n, p + l, false, nil
	}
	for len(body) > 0 {
		k, u, nd, err := Decode(body)
		if err != nil {
			return nil, 0, false, err
		}
		if nd {
			return nil, 0, false, fmt.Errorf("truncated child")
		}
		n.Kids = append(n.Kids, k)
		body = body[u:]
	}
	return n, p + l, false, nil
}
