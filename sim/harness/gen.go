package main

import (
	"math"

	"simrt/simrt"
)

// Generators. Every choice comes from the plan stream; choice 0 is the plainest one.

type Gen struct {
	c    *simrt.Chooser
	uniq int64
	big  bool // allow very large strings
}

func (g *Gen) n(k int) int              { return g.c.Choose(simrt.Plan, k) }
func (g *Gen) chance(num, den int) bool { return g.n(den) >= den-num }
func (g *Gen) rng(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + g.n(hi-lo+1)
}

var edgeInts = []int64{1, 0, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 8388607, 8388608,
	-8388608, -8388609, 16777215, 16777216, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296,
	549755813887, 549755813888, -549755813888, -549755813889, 140737488355327, 140737488355328, -140737488355328, -140737488355329,
	36028797018963967, 36028797018963968, -36028797018963968, -36028797018963969, math.MaxInt64, math.MinInt64}

func (g *Gen) Int() int64 {
	switch g.n(4) {
	case 0:
		return int64(g.n(10))
	case 1:
		return int64(g.n(1<<16)) - 1<<15
	case 2:
		return edgeInts[g.n(len(edgeInts))]
	}
	v := int64(g.n(1<<30))<<33 ^ int64(g.n(1<<30))<<10 ^ int64(g.n(1<<10))
	return v >> uint(g.n(64))
}

func (g *Gen) Int32() int64 {
	switch g.n(3) {
	case 0:
		return int64(g.n(10))
	case 1:
		return int64(g.n(1 << 16))
	}
	for {
		v := edgeInts[g.n(len(edgeInts))]
		if v >= math.MinInt32 && v <= math.MaxInt32 {
			return v
		}
		return int64(g.n(1 << 30))
	}
}

var edgeReals = []float64{1, 0, -1, 0.5, 1.5, -2.25, 3.141592653589793, 1e10, -1e-10, 255, 256, 65535.5, math.MaxFloat64, -math.MaxFloat64,
	math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 2.2250738585072009e-308, 1e308, 1e-300, 4503599627370497, 9007199254740991,
	1.0000000000000002, 0.1, -0.3333333333333333, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 40, 1 << 63, 128, -128, 1.0 / (1 << 30)}

func (g *Gen) Real() float64 {
	switch g.n(3) {
	case 0:
		return edgeReals[g.n(len(edgeReals))]
	case 1:
		return float64(g.n(1<<20)-1<<19) / 64
	}
	b := uint64(g.n(1<<30))<<34 ^ uint64(g.n(1<<30))<<12 ^ uint64(g.n(1<<12))
	v := math.Float64frombits(b)
	if math.IsNaN(v) {
		return 1.25
	}
	return v
}

var edgeLens = []int{0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 1023, 1024, 1025, 2047, 2048}
var hugeLens = []int{32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072}

// bytes makes n deterministic bytes; styles stress the framing.
func (g *Gen) bytesN(n int) []byte {
	b := make([]byte, n)
	style := g.n(5)
	g.uniq++
	x := uint64(g.n(1<<16))<<20 + uint64(g.uniq)*0x9E3779B9
	next := func() uint64 {
		x += 0x9E3779B97F4A7C15
		z := x
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		return z ^ (z >> 31)
	}
	for i := range b {
		switch style {
		case 0:
			b[i] = 'a' + byte(next()%26)
		case 1:
			b[i] = byte(next())
		case 2: // reserved bytes everywhere
			b[i] = 0xF5 + byte(next()%11)
		case 3: // zeros: look like ends of contents
			if next()%3 == 0 {
				b[i] = byte(next())
			}
		case 4:
			b[i] = 0xFF - byte(next()%4)
		}
	}
	return b
}

func (g *Gen) length() int {
	switch g.n(8) {
	case 7:
		if g.big && g.n(6) == 5 {
			return hugeLens[g.n(len(hugeLens))]
		}
		return edgeLens[g.n(len(edgeLens))]
	case 6:
		return g.n(300)
	}
	return 1 + g.n(12)
}

func (g *Gen) Str() string {
	n := g.length()
	b := g.bytesN(n)
	return string(b)
}

func (g *Gen) OIDPart() int32 {
	switch g.n(4) {
	case 3:
		es := []int32{0, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456, math.MaxInt32, 65535}
		return es[g.n(len(es))]
	case 2:
		return int32(g.n(1 << 16))
	}
	return int32(1 + g.n(9))
}

func (g *Gen) OID() []int32 {
	n := 1 + g.count(5, 140)
	o := make([]int32, n)
	for i := range o {
		o[i] = g.OIDPart()
	}
	return o
}

func (g *Gen) Value() Val {
	switch g.n(5) {
	case 0:
		return Val{T: 'i', I: g.Int()}
	case 1:
		return Val{T: 's', S: g.Str()}
	case 2:
		return Val{T: 'r', R: g.Real()}
	case 3:
		return Val{T: 'b', B: g.n(2) == 1}
	}
	return Val{T: 'o', S: string(g.bytesN(g.length()))}
}

// count is usually below k, rarely much more.
func (g *Gen) count(k, most int) int {
	if n := g.n(k * 40); n < k*39 {
		return n % k
	}
	if g.n(3) < 2 {
		return k + g.n(20)
	}
	return k + g.n(most)
}

func (g *Gen) labels() Val {
	v := Val{T: 'L'}
	for i := g.count(4, 60); i > 0; i-- {
		v.L = append(v.L, LabelV{g.OID(), g.Str()})
	}
	return v
}

func (g *Gen) tuples() Val {
	v := Val{T: 'T'}
	for i := g.count(4, 60); i > 0; i-- {
		u := TupleV{Type: int64(g.n(8))}
		if g.n(4) > 0 {
			u.Name = g.Str()
		}
		v.U = append(v.U, u)
	}
	return v
}

// field makes a value for one contents field.
func (g *Gen) field(k Kind, n int) Val {
	s := func() Val { return Val{T: 's', S: g.Str()} }
	i := func() Val { return Val{T: 'i', I: g.Int()} }
	i32 := func() Val { return Val{T: 'i', I: g.Int32()} }
	b := func() Val { return Val{T: 'b', B: g.n(2) == 1} }
	o := func() Val { return Val{T: 'O', O: g.OID()} }
	switch k {
	case KNode:
		switch n {
		case 0, 1, 4:
			return s()
		case 2, 3:
			return b()
		default:
			return o()
		}
	case KParam:
		switch n {
		case 0, 1, 6, 7, 10, 17:
			return s()
		case 2, 12:
			return g.Value()
		case 3, 4:
			if g.n(3) == 2 {
				return Val{T: 'r', R: g.Real()}
			}
			return i()
		case 5:
			return Val{T: 'i', I: int64(g.n(4))}
		case 8, 11, 14:
			return i()
		case 9:
			return b()
		case 13:
			return Val{T: 'i', I: int64(g.n(8))}
		default:
			return o()
		}
	case KMatrix:
		switch n {
		case 0, 1, 11:
			return s()
		case 2:
			return Val{T: 'i', I: int64(g.n(3))}
		case 3:
			return Val{T: 'i', I: int64(g.n(2))}
		case 4, 5, 6, 7, 9:
			return i32()
		case 8:
			if g.n(4) == 3 {
				return i32()
			}
			return o()
		case 10:
			return g.labels()
		default:
			return o()
		}
	}
	switch n {
	case 0, 1:
		return s()
	case 2, 3:
		return g.tuples()
	}
	return o()
}

var fieldsOf = [...][]int{
	KNode:   {0, 1, 2, 3, 4, 5},
	KParam:  {0, 2, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18},
	KMatrix: {0, 4, 5, 2, 3, 1, 6, 7, 8, 9, 10, 11, 12},
	KFunc:   {0, 1, 2, 3, 4},
}

// fields fills some of the contents.
func (g *Gen) fields(k Kind, dense int) map[int]Val {
	f := map[int]Val{}
	fs := fieldsOf[k]
	for i, n := range fs {
		if i < 2 && g.n(8) > 0 || g.n(10) < dense {
			f[n] = g.field(k, n)
		}
	}
	return f
}

func (g *Gen) kind() Kind {
	switch g.n(8) {
	case 0, 1, 2:
		return KNode
	case 3, 4, 5:
		return KParam
	case 6:
		return KMatrix
	}
	return KFunc
}

func (g *Gen) ints(max int) []int32 {
	n := g.count(max+1, 300)
	o := make([]int32, n)
	for i := range o {
		o[i] = int32(i)
		if g.n(6) == 5 {
			o[i] = int32(g.Int32() & 0x7FFFFFFF)
		}
	}
	return o
}

func (g *Gen) distinct(max int) []int32 {
	seen := map[int32]bool{}
	var o []int32
	for _, v := range g.ints(max) {
		if !seen[v] {
			seen[v] = true
			o = append(o, v)
		}
	}
	return o
}

func (g *Gen) conn() Conn {
	c := Conn{Sources: g.distinct(4)}
	if len(c.Sources) == 0 {
		c.Sources = []int32{int32(g.n(5))}
	}
	if g.n(8) == 7 {
		c.Sources = []int32{} // nothing is connected any more
	}
	c.Disp = int64(g.n(4))
	if g.n(6) == 5 {
		c.Op = int64(g.n(3))
	}
	return c
}

func (g *Gen) matrixParts(e *Elem) {
	if g.n(3) > 0 {
		e.HasT = true
		e.Targets = g.distinct(6)
	}
	if g.n(3) > 0 {
		e.HasS = true
		e.Sources = g.distinct(6)
	}
	if g.n(3) > 0 {
		e.HasX = true
		for _, t := range g.distinct(4) {
			e.Conns[t] = g.conn()
			e.COrder = append(e.COrder, t)
		}
	}
	e.Extra = g.n(16)
}

// freeNum picks a number not used among the given elements.
func (g *Gen) freeNum(kids []*Elem) int32 {
	n := int32(len(kids) + 1)
	if g.n(5) == 4 {
		n = g.OIDPart()
	}
	for {
		used := false
		for _, k := range kids {
			if k.Num() == n {
				used = true
			}
		}
		if !used {
			return n
		}
		n = (n + 1) & 0x7FFFFFFF
	}
}

// newElem makes an element below parent with contents but without children.
func (g *Gen) newElem(parent *Elem, sibs []*Elem, k Kind, dense int) *Elem {
	var p []int32
	if parent != nil {
		p = append(p, parent.Path...)
	}
	p = append(p, g.freeNum(sibs))
	e := &Elem{Path: p, Kind: k, F: map[int]Val{}, Conns: map[int32]Conn{}}
	if g.n(12) < 11 {
		e.HasC = true
		e.F = g.fields(k, dense)
	}
	if k == KMatrix {
		g.matrixParts(e)
	}
	return e
}

// tree makes a provider tree of about n elements.
func (g *Gen) tree(n, maxDepth, dense int) *Tree {
	t := &Tree{}
	var parents []*Elem
	shape := g.n(48)
	if shape >= 45 {
		n += 10 + g.n(60)
		if g.n(3) == 2 {
			n += g.n(150)
		}
		dense = 0
	}
	for i := 0; i < n; i++ {
		k := g.kind()
		var par *Elem
		if i == 0 {
			k = KNode
		} else if shape == 45 && i > 2 { // one wide element
			par = parents[0]
		} else if shape == 46 && i > 2 { // many top elements
		} else if shape == 47 && i > 2 && len(parents) > 0 && g.n(4) > 0 { // deep
			if k = g.kind(); g.n(4) > 0 {
				k = KNode
			}
			par = parents[len(parents)-1]
			maxDepth = 40
		} else if len(parents) > 0 && g.n(6) < 5 {
			par = parents[g.n(len(parents))]
		} else if g.n(2) == 0 {
			k = KNode
		}
		var e *Elem
		if par == nil {
			e = g.newElem(nil, t.Top, k, dense)
			e.TopQ = g.n(4) == 3
			t.Top = append(t.Top, e)
		} else {
			e = g.newElem(par, par.Kids, k, dense)
			par.Kids = append(par.Kids, e)
		}
		if len(e.Path) < maxDepth && (k == KNode || k == KMatrix && g.n(3) == 2 || k == KParam && g.n(12) == 11) {
			parents = append(parents, e)
		}
	}
	return t
}

// form chooses length encodings for one message.
func (g *Gen) form() *berForm {
	switch g.n(4) {
	case 0:
		return &berForm{}
	case 1:
		return &berForm{pick: func() int { return 1 }}
	case 2:
		return &berForm{pick: func() int { return g.n(2) }}
	}
	return &berForm{pick: func() int { return g.n(3) }}
}
