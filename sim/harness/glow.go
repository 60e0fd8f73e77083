package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Reference model of a Glow tree, its messages and their codec.

type Kind int

const (
	KNode Kind = iota
	KParam
	KMatrix
	KFunc
)

func (k Kind) String() string { return [...]string{"node", "param", "matrix", "func"}[k] }

func app(n byte) byte { return 0x60 | n }
func ctx(n int) byte  { return 0xA0 | byte(n) }

var plainTag = [...]byte{app(3), app(1), app(13), app(19)}
var qualTag = [...]byte{app(10), app(9), app(17), app(20)}

func kindOfTag(t byte) (k Kind, qual, ok bool) {
	for i := range plainTag {
		if plainTag[i] == t {
			return Kind(i), false, true
		}
		if qualTag[i] == t {
			return Kind(i), true, true
		}
	}
	return 0, false, false
}

type LabelV struct {
	Base []int32
	Desc string
}
type TupleV struct {
	Type int64
	Name string
}

type Val struct {
	T byte // i r s o b O(id) L(abels) T(uples); n null, x raw extra (not modelled)
	I int64
	R float64
	S string
	B bool
	O []int32
	L []LabelV
	U []TupleV
}

func (v Val) String() string {
	switch v.T {
	case 'i':
		return fmt.Sprintf("i%d", v.I)
	case 'r':
		if v.R == 0 {
			return "r0"
		}
		return fmt.Sprintf("r%x", math.Float64bits(v.R))
	case 's', 'o':
		if len(v.S) > 48 {
			return fmt.Sprintf("%c%d:%q..%08x", v.T, len(v.S), v.S[:16], fnv(v.S))
		}
		return fmt.Sprintf("%c%q", v.T, v.S)
	case 'b':
		return fmt.Sprintf("b%v", v.B)
	case 'O':
		return "O" + pathStr(v.O)
	case 'L':
		var b strings.Builder
		for _, l := range v.L {
			fmt.Fprintf(&b, "(%s %s)", pathStr(l.Base), Val{T: 's', S: l.Desc})
		}
		return "L" + b.String()
	case 'T':
		var b strings.Builder
		for _, l := range v.U {
			fmt.Fprintf(&b, "(%d %s)", l.Type, Val{T: 's', S: l.Name})
		}
		return "T" + b.String()
	}
	return string(v.T)
}

func fnv(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func pathStr(p []int32) string {
	s := make([]string, len(p))
	for i, v := range p {
		s[i] = fmt.Sprint(v)
	}
	return strings.Join(s, ".")
}

func samePath(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type Conn struct {
	Sources []int32
	Op      int64
	Disp    int64
}

// Elem is an element of the model tree, or (inside a Msg) an announcement of one.
type Elem struct {
	Path    []int32
	Kind    Kind
	F       map[int]Val
	HasC    bool
	Targets []int32
	HasT    bool
	Sources []int32
	HasS    bool
	Conns   map[int32]Conn
	COrder  []int32
	HasX    bool
	Kids    []*Elem
	HasK    bool   // children collection present even when empty
	Qual    bool   // message form
	TopQ    bool   // qualified form of an element at the top of the whole tree
	Extra   int    // extra constructs without a model meaning (message form)
	Cmd     *int64 // a command child (dirFieldMask) of this announcement
	CmdNum  int64
}

func (e *Elem) Num() int32 { return e.Path[len(e.Path)-1] }

func (e *Elem) kid(n int32) *Elem {
	for _, k := range e.Kids {
		if k.Num() == n {
			return k
		}
	}
	return nil
}

type Tree struct {
	Top []*Elem
}

func (t *Tree) top(n int32) *Elem {
	for _, k := range t.Top {
		if k.Num() == n {
			return k
		}
	}
	return nil
}

func (t *Tree) find(p []int32) *Elem {
	if len(p) == 0 {
		return nil
	}
	e := t.top(p[0])
	for _, n := range p[1:] {
		if e == nil {
			return nil
		}
		e = e.kid(n)
	}
	return e
}

func (t *Tree) all() []*Elem {
	var out []*Elem
	var rec func(e *Elem)
	rec = func(e *Elem) {
		out = append(out, e)
		for _, k := range e.Kids {
			rec(k)
		}
	}
	for _, e := range t.Top {
		rec(e)
	}
	return out
}

func (t *Tree) clone() *Tree {
	n := &Tree{}
	for _, e := range t.Top {
		n.Top = append(n.Top, e.clone(true))
	}
	return n
}

func (e *Elem) clone(kids bool) *Elem {
	c := *e
	c.F = map[int]Val{}
	for k, v := range e.F {
		c.F[k] = v
	}
	c.Conns = map[int32]Conn{}
	for k, v := range e.Conns {
		c.Conns[k] = v
	}
	c.COrder = append([]int32(nil), e.COrder...)
	c.Kids = nil
	if kids {
		for _, k := range e.Kids {
			c.Kids = append(c.Kids, k.clone(true))
		}
	}
	return &c
}

// visible tells whether field k with value v can be told from an absent one through the API.
func (e *Elem) visible(k int, v Val) bool {
	if e.Kind == KMatrix && (k == 2 || k == 3) && v.T == 'i' && v.I == 0 {
		return false // the Glow defaults
	}
	if v.T == 'n' || v.T == 'x' {
		return false
	}
	return !(v.T == 'L' && len(v.L) == 0 || v.T == 'T' && len(v.U) == 0 || v.T == 'O' && len(v.O) == 0)
}

// shown is the field as seen through the API.
func (e *Elem) shown(k int) string {
	v, ok := e.F[k]
	if !ok || !e.visible(k, v) {
		return ""
	}
	return v.String()
}

// own renders the element itself, canonically.
func (e *Elem) own() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s {", pathStr(e.Path), e.Kind)
	var ks []int
	for k, v := range e.F {
		if e.visible(k, v) {
			ks = append(ks, k)
		}
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, " %d:%s", k, e.F[k])
	}
	b.WriteString(" }")
	if e.Kind == KMatrix {
		if len(e.Targets) > 0 {
			fmt.Fprintf(&b, " targets=%s", pathStr(e.Targets))
		}
		if len(e.Sources) > 0 {
			fmt.Fprintf(&b, " sources=%s", pathStr(e.Sources))
		}
		var ts []int
		for t := range e.Conns {
			ts = append(ts, int(t))
		}
		sort.Ints(ts)
		for _, t := range ts {
			c := e.Conns[int32(t)]
			fmt.Fprintf(&b, " conn %d<-%s op%d disp%d", t, pathStr(c.Sources), c.Op, c.Disp)
		}
	}
	return b.String()
}

func (t *Tree) dump() []string {
	var out []string
	var rec func(e *Elem)
	rec = func(e *Elem) {
		out = append(out, e.own())
		ks := append([]*Elem(nil), e.Kids...)
		sort.Slice(ks, func(i, j int) bool { return ks[i].Num() < ks[j].Num() })
		for _, k := range ks {
			rec(k)
		}
	}
	ks := append([]*Elem(nil), t.Top...)
	sort.Slice(ks, func(i, j int) bool { return ks[i].Num() < ks[j].Num() })
	for _, e := range ks {
		rec(e)
	}
	return out
}

// diffTrees reports the first difference, or "".
func diffTrees(want, got *Tree) string {
	a, b := want.dump(), got.dump()
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return "unexpected element: " + b[i]
		case i >= len(b):
			return "missing element: " + a[i]
		case a[i] != b[i]:
			pa, pb := strings.SplitN(a[i], " ", 2)[0], strings.SplitN(b[i], " ", 2)[0]
			if pa != pb {
				for _, x := range b {
					if strings.HasPrefix(x, pa+" ") {
						return "unexpected element: " + b[i]
					}
				}
				return "missing element: " + a[i] + " (found " + b[i] + ")"
			}
			return "element differs: expected " + a[i] + " but found " + b[i]
		}
	}
	return ""
}

// Msg is one Glow root message.
type Msg struct {
	Elems        []*Elem
	Other        byte // root choice other than the element collection (stream 6, invocation result 23)
	Cmd          *int64
	CmdNum       int64
	NoCollection bool
}

// ---- encoding ----

func encVal(v Val) []byte {
	switch v.T {
	case 'i':
		return berInt(v.I)
	case 'r':
		return berReal(v.R)
	case 's':
		return berStr(v.S)
	case 'o':
		return berOct(v.S)
	case 'b':
		return berBool(v.B)
	case 'O':
		return berOID(v.O)
	case 'n':
		return berPrim(5, nil)
	}
	panic("encVal " + string(v.T))
}

func encFields(f *berForm, e *Elem) []byte {
	var ks []int
	for k := range e.F {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var parts [][]byte
	for _, k := range ks {
		v := e.F[k]
		switch v.T {
		case 'L':
			var ls [][]byte
			for _, l := range v.L {
				ls = append(ls, berCons(f, ctx(0), berCons(f, app(18), berCons(f, ctx(0), berOID(l.Base)), berCons(f, ctx(1), berStr(l.Desc)))))
			}
			parts = append(parts, berCons(f, ctx(k), berCons(f, 0x30, ls...)))
		case 'T':
			var ls [][]byte
			for _, l := range v.U {
				t := [][]byte{berCons(f, ctx(0), berInt(l.Type))}
				if l.Name != "" {
					t = append(t, berCons(f, ctx(1), berStr(l.Name)))
				}
				ls = append(ls, berCons(f, ctx(0), berCons(f, app(21), t...)))
			}
			parts = append(parts, berCons(f, ctx(k), berCons(f, 0x30, ls...)))
		case 'x':
			parts = append(parts, encExtra(f, k, v))
		default:
			parts = append(parts, berCons(f, ctx(k), encVal(v)))
		}
	}
	return berCons(f, 0x31, parts...)
}

// encExtra encodes Glow constructs the library has no accessor for (they must be skipped).
func encExtra(f *berForm, k int, v Val) []byte {
	switch k {
	case 15: // enumMap: StringIntegerCollection
		var ls [][]byte
		for i := int64(0); i < v.I; i++ {
			ls = append(ls, berCons(f, ctx(0), berCons(f, app(7), berCons(f, ctx(0), berStr(fmt.Sprintf("e%d", i))), berCons(f, ctx(1), berInt(i)))))
		}
		return berCons(f, ctx(15), berCons(f, app(8), ls...))
	case 16: // streamDescriptor
		return berCons(f, ctx(16), berCons(f, app(12), berCons(f, ctx(0), berInt(v.I)), berCons(f, ctx(1), berInt(4))))
	}
	return berCons(f, ctx(k), berStr(v.S)) // a field of a later protocol version
}

func encSignals(f *berForm, c int, tag byte, ns []int32) []byte {
	var ls [][]byte
	for _, n := range ns {
		ls = append(ls, berCons(f, ctx(0), berCons(f, tag, berCons(f, ctx(0), berInt(int64(n))))))
	}
	return berCons(f, ctx(c), berCons(f, 0x30, ls...))
}

func encElem(f *berForm, e *Elem) []byte {
	tag := plainTag[e.Kind]
	id := berInt(int64(e.Num()))
	if e.Qual {
		tag = qualTag[e.Kind]
		id = berOID(e.Path)
	}
	parts := [][]byte{berCons(f, ctx(0), id)}
	if e.HasC {
		parts = append(parts, berCons(f, ctx(1), encFields(f, e)))
	}
	if len(e.Kids) > 0 || e.HasK {
		var ks [][]byte
		for _, k := range e.Kids {
			ks = append(ks, berCons(f, ctx(0), encElem(f, k)))
		}
		parts = append(parts, berCons(f, ctx(2), berCons(f, app(4), ks...)))
	}
	if e.HasT {
		parts = append(parts, encSignals(f, 3, app(14), e.Targets))
	}
	if e.HasS {
		parts = append(parts, encSignals(f, 4, app(15), e.Sources))
	}
	if e.HasX {
		var ls [][]byte
		for _, t := range e.COrder {
			c := e.Conns[t]
			p := [][]byte{berCons(f, ctx(0), berInt(int64(t)))}
			if c.Sources != nil {
				p = append(p, berCons(f, ctx(1), berOID(c.Sources)))
			}
			if c.Op != 0 || e.Extra&4 != 0 {
				p = append(p, berCons(f, ctx(2), berInt(c.Op)))
			}
			if c.Disp != 0 || e.Extra&8 != 0 {
				p = append(p, berCons(f, ctx(3), berInt(c.Disp)))
			}
			ls = append(ls, berCons(f, ctx(0), berCons(f, app(16), p...)))
		}
		parts = append(parts, berCons(f, ctx(5), berCons(f, 0x30, ls...)))
	}
	return berCons(f, tag, parts...)
}

func encMsg(f *berForm, m *Msg) []byte {
	switch m.Other {
	case 6:
		return berCons(f, app(0), berCons(f, app(6), berCons(f, ctx(0), berCons(f, app(5), berCons(f, ctx(0), berInt(1)), berCons(f, ctx(1), berInt(7))))))
	case 23:
		return berCons(f, app(0), berCons(f, app(23), berCons(f, ctx(0), berInt(1)), berCons(f, ctx(1), berBool(true))))
	}
	if m.NoCollection {
		return berCons(f, app(0))
	}
	var ls [][]byte
	for _, e := range m.Elems {
		ls = append(ls, berCons(f, ctx(0), encElem(f, e)))
	}
	return berCons(f, app(0), berCons(f, app(11), ls...))
}

// ---- decoding (strict) ----

func one(t *tlv, what string) (*tlv, error) {
	if !t.cons || len(t.kids) != 1 {
		return nil, fmt.Errorf("%s: expected exactly one inner value at %d", what, t.off)
	}
	return t.kids[0], nil
}

func decInt(t *tlv, what string) (int64, error) {
	k, err := one(t, what)
	if err != nil {
		return 0, err
	}
	if k.tag != 2 {
		return 0, fmt.Errorf("%s: tag %#x instead of INTEGER at %d", what, k.tag, k.off)
	}
	return parseInt(k.data)
}

func decStr(t *tlv, what string) (string, error) {
	k, err := one(t, what)
	if err != nil {
		return "", err
	}
	if k.tag != 12 {
		return "", fmt.Errorf("%s: tag %#x instead of UTF8String at %d", what, k.tag, k.off)
	}
	return string(k.data), nil
}

func decOID(t *tlv, what string) ([]int32, error) {
	k, err := one(t, what)
	if err != nil {
		return nil, err
	}
	if k.tag != 13 {
		return nil, fmt.Errorf("%s: tag %#x instead of RELATIVE-OID at %d", what, k.tag, k.off)
	}
	return parseOID(k.data)
}

func decVal(k *tlv) (Val, error) {
	switch k.tag {
	case 1:
		if len(k.data) != 1 {
			return Val{}, fmt.Errorf("boolean of %d bytes", len(k.data))
		}
		return Val{T: 'b', B: k.data[0] != 0}, nil
	case 2:
		i, err := parseInt(k.data)
		return Val{T: 'i', I: i}, err
	case 4:
		return Val{T: 'o', S: string(k.data)}, nil
	case 5:
		return Val{T: 'n'}, nil
	case 9:
		r, err := parseReal(k.data)
		return Val{T: 'r', R: r}, err
	case 12:
		return Val{T: 's', S: string(k.data)}, nil
	case 13:
		o, err := parseOID(k.data)
		return Val{T: 'O', O: o}, err
	}
	return Val{}, fmt.Errorf("value tag %#x at %d", k.tag, k.off)
}

func decSet(set *tlv, kind Kind) (map[int]Val, error) {
	if set.tag != 0x31 {
		return nil, fmt.Errorf("contents tag %#x instead of SET at %d", set.tag, set.off)
	}
	out := map[int]Val{}
	for _, c := range set.kids {
		if c.tag&0xE0 != 0xA0 {
			return nil, fmt.Errorf("contents field tag %#x at %d", c.tag, c.off)
		}
		n := int(c.tag & 0x1F)
		if _, dup := out[n]; dup {
			return nil, fmt.Errorf("contents field %d twice", n)
		}
		k, err := one(c, fmt.Sprintf("field %d", n))
		if err != nil {
			return nil, err
		}
		switch {
		case kind == KMatrix && n == 10:
			if k.tag != 0x30 {
				return nil, fmt.Errorf("labels tag %#x", k.tag)
			}
			v := Val{T: 'L'}
			for _, w := range k.kids {
				l, err := one(w, "label")
				if err != nil {
					return nil, err
				}
				if w.tag != ctx(0) || l.tag != app(18) || len(l.kids) != 2 || l.kids[0].tag != ctx(0) || l.kids[1].tag != ctx(1) {
					return nil, fmt.Errorf("label structure at %d", l.off)
				}
				b, err := decOID(l.kids[0], "label path")
				if err != nil {
					return nil, err
				}
				d, err := decStr(l.kids[1], "label text")
				if err != nil {
					return nil, err
				}
				v.L = append(v.L, LabelV{b, d})
			}
			out[n] = v
		case kind == KFunc && (n == 2 || n == 3):
			if k.tag != 0x30 {
				return nil, fmt.Errorf("tuple list tag %#x", k.tag)
			}
			v := Val{T: 'T'}
			for _, w := range k.kids {
				l, err := one(w, "tuple")
				if err != nil {
					return nil, err
				}
				if w.tag != ctx(0) || l.tag != app(21) || len(l.kids) < 1 || len(l.kids) > 2 || l.kids[0].tag != ctx(0) {
					return nil, fmt.Errorf("tuple structure at %d", l.off)
				}
				var u TupleV
				if u.Type, err = decInt(l.kids[0], "tuple type"); err != nil {
					return nil, err
				}
				if len(l.kids) == 2 {
					if l.kids[1].tag != ctx(1) {
						return nil, fmt.Errorf("tuple structure at %d", l.off)
					}
					if u.Name, err = decStr(l.kids[1], "tuple name"); err != nil {
						return nil, err
					}
				}
				v.U = append(v.U, u)
			}
			out[n] = v
		case k.cons:
			out[n] = Val{T: 'x'}
		default:
			v, err := decVal(k)
			if err != nil {
				return nil, err
			}
			out[n] = v
		}
	}
	return out, nil
}

func decSignals(c *tlv, tag byte) ([]int32, error) {
	k, err := one(c, "signals")
	if err != nil {
		return nil, err
	}
	if k.tag != 0x30 {
		return nil, fmt.Errorf("signals tag %#x", k.tag)
	}
	var out []int32
	for _, w := range k.kids {
		s, err := one(w, "signal")
		if err != nil {
			return nil, err
		}
		if w.tag != ctx(0) || s.tag != tag || len(s.kids) != 1 || s.kids[0].tag != ctx(0) {
			return nil, fmt.Errorf("signal structure at %d", s.off)
		}
		n, err := decInt(s.kids[0], "signal number")
		if err != nil {
			return nil, err
		}
		out = append(out, int32(n))
	}
	return out, nil
}

func decElem(t *tlv, parent []int32) (*Elem, error) {
	k, qual, ok := kindOfTag(t.tag)
	if !ok {
		return nil, fmt.Errorf("element tag %#x at %d", t.tag, t.off)
	}
	e := &Elem{Kind: k, Qual: qual, F: map[int]Val{}, Conns: map[int32]Conn{}}
	if len(t.kids) == 0 || t.kids[0].tag != ctx(0) {
		return nil, fmt.Errorf("element without number or path at %d", t.off)
	}
	if qual {
		p, err := decOID(t.kids[0], "path")
		if err != nil {
			return nil, err
		}
		if len(p) == 0 {
			return nil, fmt.Errorf("empty path at %d", t.off)
		}
		if len(parent) > 0 {
			return nil, fmt.Errorf("qualified element %s among the children of %s", pathStr(p), pathStr(parent))
		}
		e.Path = p
	} else {
		n, err := decInt(t.kids[0], "number")
		if err != nil {
			return nil, err
		}
		e.Path = append(append([]int32(nil), parent...), int32(n))
	}
	seen := [6]bool{}
	for _, c := range t.kids[1:] {
		n := int(c.tag & 0x1F)
		if c.tag&0xE0 != 0xA0 || n == 0 || n > 5 || seen[n] {
			return nil, fmt.Errorf("element part tag %#x at %d", c.tag, c.off)
		}
		seen[n] = true
		switch n {
		case 1:
			set, err := one(c, "contents")
			if err != nil {
				return nil, err
			}
			f, err := decSet(set, k)
			if err != nil {
				return nil, err
			}
			e.F, e.HasC = f, true
		case 2:
			col, err := one(c, "children")
			if err != nil {
				return nil, err
			}
			if col.tag != app(4) {
				return nil, fmt.Errorf("children tag %#x", col.tag)
			}
			e.HasK = true
			for _, w := range col.kids {
				x, err := one(w, "child")
				if err != nil {
					return nil, err
				}
				if w.tag != ctx(0) {
					return nil, fmt.Errorf("child wrapper tag %#x", w.tag)
				}
				if x.tag == app(2) {
					num, mask, err := decCommand(x)
					if err != nil {
						return nil, err
					}
					if e.Cmd != nil {
						return nil, fmt.Errorf("two commands in one element")
					}
					e.Cmd, e.CmdNum = mask, num
					if mask == nil {
						z := int64(-999)
						e.Cmd = &z
					}
					continue
				}
				kid, err := decElem(x, e.Path)
				if err != nil {
					return nil, err
				}
				if e.kid(kid.Num()) != nil && samePath(e.kid(kid.Num()).Path, kid.Path) {
					return nil, fmt.Errorf("element %s twice in one collection", pathStr(kid.Path))
				}
				e.Kids = append(e.Kids, kid)
			}
		case 3, 4:
			tag := app(14)
			if n == 4 {
				tag = app(15)
			}
			s, err := decSignals(c, tag)
			if err != nil {
				return nil, err
			}
			if n == 3 {
				e.Targets, e.HasT = s, true
			} else {
				e.Sources, e.HasS = s, true
			}
		case 5:
			seq, err := one(c, "connections")
			if err != nil {
				return nil, err
			}
			if seq.tag != 0x30 {
				return nil, fmt.Errorf("connections tag %#x", seq.tag)
			}
			e.HasX = true
			for _, w := range seq.kids {
				x, err := one(w, "connection")
				if err != nil {
					return nil, err
				}
				if x.tag != app(16) || len(x.kids) == 0 || x.kids[0].tag != ctx(0) {
					return nil, fmt.Errorf("connection structure at %d", x.off)
				}
				tn, err := decInt(x.kids[0], "connection target")
				if err != nil {
					return nil, err
				}
				var cn Conn
				for _, p := range x.kids[1:] {
					switch p.tag {
					case ctx(1):
						if cn.Sources, err = decOID(p, "connection sources"); err != nil {
							return nil, err
						}
					case ctx(2):
						if cn.Op, err = decInt(p, "operation"); err != nil {
							return nil, err
						}
					case ctx(3):
						if cn.Disp, err = decInt(p, "disposition"); err != nil {
							return nil, err
						}
					default:
						return nil, fmt.Errorf("connection part tag %#x", p.tag)
					}
				}
				if _, dup := e.Conns[int32(tn)]; dup {
					return nil, fmt.Errorf("connection for target %d twice", tn)
				}
				e.Conns[int32(tn)] = cn
				e.COrder = append(e.COrder, int32(tn))
			}
		}
	}
	return e, nil
}

func decCommand(x *tlv) (num int64, mask *int64, err error) {
	if len(x.kids) == 0 || x.kids[0].tag != ctx(0) {
		return 0, nil, fmt.Errorf("command structure at %d", x.off)
	}
	if num, err = decInt(x.kids[0], "command number"); err != nil {
		return
	}
	for _, p := range x.kids[1:] {
		switch p.tag {
		case ctx(1):
			m, e := decInt(p, "field mask")
			if e != nil {
				return 0, nil, e
			}
			mask = &m
		default:
			return 0, nil, fmt.Errorf("command part tag %#x", p.tag)
		}
	}
	return
}

func decMsg(p []byte) (*Msg, error) {
	ts, _, err := parseTLVs(p, 0, false, 0)
	if err != nil {
		return nil, err
	}
	if len(ts) != 1 || ts[0].tag != app(0) {
		return nil, fmt.Errorf("not exactly one Glow root")
	}
	m := &Msg{}
	if len(ts[0].kids) == 0 {
		m.NoCollection = true
		return m, nil
	}
	col, err := one(ts[0], "root")
	if err != nil {
		return nil, err
	}
	if col.tag != app(11) {
		return nil, fmt.Errorf("root collection tag %#x", col.tag)
	}
	for _, w := range col.kids {
		x, err := one(w, "root element")
		if err != nil {
			return nil, err
		}
		if w.tag != ctx(0) {
			return nil, fmt.Errorf("root element wrapper tag %#x", w.tag)
		}
		if x.tag == app(2) {
			num, mask, err := decCommand(x)
			if err != nil {
				return nil, err
			}
			if m.Cmd != nil {
				return nil, fmt.Errorf("two root commands")
			}
			m.CmdNum, m.Cmd = num, mask
			if mask == nil {
				z := int64(-999)
				m.Cmd = &z
			}
			continue
		}
		e, err := decElem(x, nil)
		if err != nil {
			return nil, err
		}
		m.Elems = append(m.Elems, e)
	}
	return m, nil
}

// getDirTarget interprets a client message as a get-directory request: the path ([] for the root) and field mask.
func getDirTarget(m *Msg) (path []int32, mask int64, err error) {
	if m.Cmd != nil {
		if len(m.Elems) > 0 {
			return nil, 0, fmt.Errorf("root command together with elements")
		}
		if m.CmdNum != 32 {
			return nil, 0, fmt.Errorf("command %d instead of get-directory", m.CmdNum)
		}
		return nil, *m.Cmd, nil
	}
	if len(m.Elems) != 1 {
		return nil, 0, fmt.Errorf("%d elements in a directory request", len(m.Elems))
	}
	e := m.Elems[0]
	for {
		if e.HasC || e.HasT || e.HasS || e.HasX {
			return nil, 0, fmt.Errorf("directory request carries element data")
		}
		if e.Cmd != nil {
			if len(e.Kids) > 0 {
				return nil, 0, fmt.Errorf("directory request with extra children")
			}
			if e.CmdNum != 32 {
				return nil, 0, fmt.Errorf("command %d instead of get-directory", e.CmdNum)
			}
			return e.Path, *e.Cmd, nil
		}
		if len(e.Kids) != 1 {
			return nil, 0, fmt.Errorf("element without command in a directory request")
		}
		e = e.Kids[0]
	}
}

// ---- merge semantics ----

func (e *Elem) absorb(n *Elem) {
	if n.HasC {
		for k, v := range n.F {
			if v.T == 'n' || v.T == 'x' {
				continue
			}
			e.F[k] = v
		}
		e.HasC = true
	}
	if n.HasT {
		e.Targets, e.HasT = n.Targets, true
	}
	if n.HasS {
		e.Sources, e.HasS = n.Sources, true
	}
	if n.HasX {
		e.HasX = true
		for _, t := range n.COrder {
			if _, ok := e.Conns[t]; !ok {
				e.COrder = append(e.COrder, t)
			}
			e.Conns[t] = n.Conns[t]
		}
	}
	for _, k := range n.Kids {
		c := e.kid(k.Num())
		if c == nil {
			c = &Elem{Path: append(append([]int32(nil), e.Path...), k.Num()), Kind: k.Kind, F: map[int]Val{}, Conns: map[int32]Conn{}}
			e.Kids = append(e.Kids, c)
		}
		c.absorb(k)
	}
}

// apply merges a message; it reports how many top-level mentions had no parent.
func (t *Tree) apply(m *Msg) (orphans int) {
	for _, n := range m.Elems {
		p := n.Path
		cur := t.find(p)
		if cur == nil {
			cur = &Elem{Path: append([]int32(nil), p...), Kind: n.Kind, F: map[int]Val{}, Conns: map[int32]Conn{}}
			if len(p) == 1 {
				t.Top = append(t.Top, cur)
			} else {
				par := t.find(p[:len(p)-1])
				if par == nil {
					orphans++
					continue
				}
				par.Kids = append(par.Kids, cur)
			}
		}
		cur.absorb(n)
	}
	return
}

// asTree views a message as the tree it describes (for published trees).
func (m *Msg) asTree() (*Tree, error) {
	t := &Tree{}
	if t.apply(m) > 0 {
		return nil, fmt.Errorf("message has elements without parent")
	}
	return t, nil
}

// brief renders a message for the trace.
func (m *Msg) brief() string {
	if m.Other != 0 {
		return fmt.Sprintf("root choice %d", m.Other)
	}
	if m.NoCollection {
		return "empty root"
	}
	var b strings.Builder
	var rec func(e *Elem)
	rec = func(e *Elem) {
		if e.Qual {
			b.WriteString("q")
		}
		b.WriteString(e.own())
		if !e.HasC {
			b.WriteString("-")
		}
		if len(e.Kids) > 0 || e.HasK {
			b.WriteString("(")
			for _, k := range e.Kids {
				rec(k)
				b.WriteString(";")
			}
			b.WriteString(")")
		}
	}
	for _, e := range m.Elems {
		rec(e)
		b.WriteString("|")
	}
	s := b.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
