package main

import (
	"fmt"
	"math"
	"math/big"
)

// Independent BER subset used by Glow.

type tlv struct {
	tag   byte
	cons  bool
	data  []byte // primitive contents
	kids  []*tlv
	indef bool
	off   int
	end   int // offset after the whole element
	cEnd  int // definite: offset after the contents
}

func parseTLVs(p []byte, base int, indef bool, depth int) ([]*tlv, int, error) {
	var out []*tlv
	i := 0
	if depth > 4000 {
		return nil, 0, fmt.Errorf("too deep")
	}
	for i < len(p) {
		if indef && p[i] == 0 {
			if i+1 < len(p) && p[i+1] == 0 {
				return out, i + 2, nil
			}
			return nil, 0, fmt.Errorf("bad end of contents at %d", base+i)
		}
		t, n, err := parseTLV(p[i:], base+i, depth)
		if err != nil {
			return nil, 0, err
		}
		out = append(out, t)
		i += n
	}
	if indef {
		return nil, 0, fmt.Errorf("missing end of contents")
	}
	return out, i, nil
}

func parseTLV(p []byte, base, depth int) (*tlv, int, error) {
	if len(p) < 2 {
		return nil, 0, fmt.Errorf("truncated header at %d", base)
	}
	t := &tlv{tag: p[0], cons: p[0]&0x20 != 0, off: base}
	if p[0]&0x1F == 0x1F {
		return nil, 0, fmt.Errorf("long tag at %d", base)
	}
	if p[0] == 0 {
		return nil, 0, fmt.Errorf("unexpected end of contents at %d", base)
	}
	l := int(p[1])
	i := 2
	if l == 0x80 {
		if !t.cons {
			return nil, 0, fmt.Errorf("indefinite primitive at %d", base)
		}
		t.indef = true
		kids, n, err := parseTLVs(p[i:], base+i, true, depth+1)
		if err != nil {
			return nil, 0, err
		}
		t.kids = kids
		t.end = base + i + n
		return t, i + n, nil
	}
	if l > 0x80 {
		k := l & 0x7F
		if k > 4 || len(p) < 2+k {
			return nil, 0, fmt.Errorf("bad length at %d", base)
		}
		l = 0
		for j := 0; j < k; j++ {
			l = l<<8 | int(p[2+j])
		}
		i += k
	}
	if len(p) < i+l {
		return nil, 0, fmt.Errorf("length %d beyond the end at %d", l, base)
	}
	if t.cons {
		kids, _, err := parseTLVs(p[i:i+l], base+i, false, depth+1)
		if err != nil {
			return nil, 0, err
		}
		t.kids = kids
	} else {
		t.data = p[i : i+l]
	}
	t.end = base + i + l
	return t, i + l, nil
}

// encoding forms
type berForm struct {
	pick func() int // 0 indefinite, 1 definite minimal, 2 definite with padded length
}

func (f *berForm) choose() int {
	if f == nil || f.pick == nil {
		return 0
	}
	return f.pick()
}

func berLen(n int, pad bool) []byte {
	if !pad {
		if n < 0x80 {
			return []byte{byte(n)}
		}
		if n < 0x100 {
			return []byte{0x81, byte(n)}
		}
		if n < 0x10000 {
			return []byte{0x82, byte(n >> 8), byte(n)}
		}
		if n < 0x1000000 {
			return []byte{0x83, byte(n >> 16), byte(n >> 8), byte(n)}
		}
	}
	return []byte{0x84, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

func berCons(f *berForm, tag byte, parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := make([]byte, 0, n+6)
	out = append(out, tag)
	switch f.choose() {
	case 0:
		out = append(out, 0x80)
		for _, p := range parts {
			out = append(out, p...)
		}
		return append(out, 0, 0)
	case 1:
		out = append(out, berLen(n, false)...)
	default:
		out = append(out, berLen(n, true)...)
	}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func berPrim(tag byte, data []byte) []byte {
	return append(append([]byte{tag}, berLen(len(data), false)...), data...)
}

func berIntBytes(v int64) []byte {
	n := 1
	for n < 8 && (v > (int64(1)<<(8*n-1))-1 || v < -(int64(1)<<(8*n-1))) {
		n++
	}
	b := make([]byte, n)
	for i := range b {
		b[n-1-i] = byte(v >> (8 * i))
	}
	return b
}

func berInt(v int64) []byte { return berPrim(2, berIntBytes(v)) }
func berBool(v bool) []byte {
	if v {
		return berPrim(1, []byte{0xFF})
	}
	return berPrim(1, []byte{0})
}
func berStr(s string) []byte { return berPrim(12, []byte(s)) }
func berOct(s string) []byte { return berPrim(4, []byte(s)) }

func oidBytes(o []int32) []byte {
	var out []byte
	for _, v := range o {
		var tmp []byte
		u := uint32(v)
		tmp = append(tmp, byte(u&0x7F))
		for u >>= 7; u > 0; u >>= 7 {
			tmp = append(tmp, byte(u&0x7F)|0x80)
		}
		for i := len(tmp) - 1; i >= 0; i-- {
			out = append(out, tmp[i])
		}
	}
	return out
}
func berOID(o []int32) []byte { return berPrim(13, oidBytes(o)) }

func parseOID(p []byte) ([]int32, error) {
	var out []int32
	var v uint64
	open := false
	for _, b := range p {
		v = v<<7 | uint64(b&0x7F)
		open = true
		if v > math.MaxInt32 {
			return nil, fmt.Errorf("oid component too large")
		}
		if b&0x80 == 0 {
			out = append(out, int32(v))
			v, open = 0, false
		}
	}
	if open {
		return nil, fmt.Errorf("oid cut")
	}
	return out, nil
}

func parseInt(p []byte) (int64, error) {
	if len(p) == 0 || len(p) > 8 {
		return 0, fmt.Errorf("integer of %d bytes", len(p))
	}
	v := int64(0)
	if p[0]&0x80 != 0 {
		v = -1
	}
	for _, b := range p {
		v = v<<8 | int64(b)
	}
	return v, nil
}

// Reals follow the Ember+ convention: value = 1.f * 2^exponent, trailing zero bits of the
// significand removed.
func berReal(v float64) []byte {
	switch {
	case v == 0:
		return berPrim(9, nil)
	case math.IsInf(v, 1):
		return berPrim(9, []byte{0x40})
	case math.IsInf(v, -1):
		return berPrim(9, []byte{0x41})
	case math.IsNaN(v):
		return berPrim(9, []byte{0x42})
	}
	pre := byte(0x80)
	if v < 0 {
		pre |= 0x40
		v = -v
	}
	fr, ex := math.Frexp(v) // fr in [0.5,1)
	sig := uint64(math.Ldexp(fr, 53))
	for sig&1 == 0 {
		sig >>= 1
	}
	e := berIntBytes(int64(ex - 1))
	pre |= byte(len(e) - 1)
	out := append([]byte{pre}, e...)
	sb := new(big.Int).SetUint64(sig).Bytes()
	return berPrim(9, append(out, sb...))
}

func parseReal(p []byte) (float64, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(p) == 1 {
		switch p[0] {
		case 0x40:
			return math.Inf(1), nil
		case 0x41:
			return math.Inf(-1), nil
		case 0x42:
			return math.NaN(), nil
		case 0x43:
			return 0, nil
		}
		return 0, fmt.Errorf("bad special real %x", p[0])
	}
	pre := p[0]
	if pre&0x80 == 0 || pre&0x30 != 0 || pre&0x0C != 0 {
		return 0, fmt.Errorf("real preamble %x", pre)
	}
	n := int(pre&3) + 1
	if n > 3 || len(p) < 1+n {
		return 0, fmt.Errorf("real exponent")
	}
	e, err := parseInt(p[1 : 1+n])
	if err != nil {
		return 0, err
	}
	sig := new(big.Int).SetBytes(p[1+n:])
	if sig.Sign() == 0 {
		return 0, nil
	}
	bl := sig.BitLen()
	if bl > 53 {
		tz := sig.TrailingZeroBits()
		sig.Rsh(sig, tz)
		if sig.BitLen() > 53 {
			return 0, fmt.Errorf("real significand of %d bits", bl)
		}
	}
	m := math.Ldexp(float64(sig.Uint64()), 1-sig.BitLen())
	v := math.Ldexp(m, int(e))
	if pre&0x40 != 0 {
		v = -v
	}
	return v, nil
}
