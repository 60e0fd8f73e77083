package main

import (
	"fmt"

	liberr "github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
)

// ---- C10: truncation ----

// allowed values after a truncated message.
type allowed struct {
	before *Tree
	full   *Tree
	fields map[string]map[string]bool // path/field -> shown values stated by the message
	lists  map[string]map[string]bool // path/t or path/s
	conns  map[string]map[string]bool // path/target
}

func put(m map[string]map[string]bool, k, v string) {
	if m[k] == nil {
		m[k] = map[string]bool{}
	}
	m[k][v] = true
}

func connStr(c Conn) string { return fmt.Sprintf("<-%s op%d disp%d", pathStr(c.Sources), c.Op, c.Disp) }

func allow(before, full *Tree, m *Msg) *allowed {
	a := &allowed{before: before, full: full, fields: map[string]map[string]bool{}, lists: map[string]map[string]bool{}, conns: map[string]map[string]bool{}}
	var rec func(e *Elem)
	rec = func(e *Elem) {
		p := pathStr(e.Path)
		for k, v := range e.F {
			if v.T != 'n' && v.T != 'x' {
				put(a.fields, fmt.Sprintf("%s/%d", p, k), e.shown(k))
			}
		}
		if e.HasT {
			put(a.lists, p+"/t", pathStr(e.Targets))
		}
		if e.HasS {
			put(a.lists, p+"/s", pathStr(e.Sources))
		}
		if e.HasX {
			for t, c := range e.Conns {
				put(a.conns, fmt.Sprintf("%s/%d", p, t), connStr(c))
			}
		}
		for _, k := range e.Kids {
			rec(k)
		}
	}
	for _, e := range m.Elems {
		rec(e)
	}
	return a
}

// check finds what the tree must not contain.
func (a *allowed) check(got *Tree) string {
	for _, e := range a.before.all() {
		if got.find(e.Path) == nil {
			return fmt.Sprintf("element %s vanished", pathStr(e.Path))
		}
	}
	for _, e := range got.all() {
		p := pathStr(e.Path)
		b, f := a.before.find(e.Path), a.full.find(e.Path)
		if f == nil {
			return fmt.Sprintf("element %s exists though no message announced it", p)
		}
		if f.Kind != e.Kind {
			return fmt.Sprintf("element %s is a %s instead of a %s", p, e.Kind, f.Kind)
		}
		if b == nil {
			b = bare(f)
		}
		for n := 0; n < 32; n++ {
			v := e.shown(n)
			if v != b.shown(n) && !a.fields[fmt.Sprintf("%s/%d", p, n)][v] {
				return fmt.Sprintf("field %d of %s is %q; before it was %q and the message says %q", n, p, v, b.shown(n), f.shown(n))
			}
		}
		if e.Kind != KMatrix {
			continue
		}
		if v := pathStr(e.Targets); v != pathStr(b.Targets) && !a.lists[p+"/t"][v] {
			return fmt.Sprintf("targets of %s are %s; before they were %s and the message says %s", p, v, pathStr(b.Targets), pathStr(f.Targets))
		}
		if v := pathStr(e.Sources); v != pathStr(b.Sources) && !a.lists[p+"/s"][v] {
			return fmt.Sprintf("sources of %s are %s; before they were %s and the message says %s", p, v, pathStr(b.Sources), pathStr(f.Sources))
		}
		for _, t := range b.COrder {
			if _, ok := e.Conns[t]; !ok {
				return fmt.Sprintf("connection of target %d of %s vanished", t, p)
			}
		}
		for _, t := range e.COrder {
			c := connStr(e.Conns[t])
			old, ok := b.Conns[t]
			if !(ok && connStr(old) == c) && !a.conns[fmt.Sprintf("%s/%d", p, t)][c] {
				return fmt.Sprintf("connection of target %d of %s is %s, which nobody announced", t, p, c)
			}
		}
	}
	return ""
}

// tlvs lists all of a message.
func tlvs(enc []byte) (out []*tlv, parentEnd []int) {
	t, _, err := parseTLV(enc, 0, 0)
	if err != nil {
		return
	}
	var rec func(t *tlv, end int)
	rec = func(t *tlv, end int) {
		out = append(out, t)
		parentEnd = append(parentEnd, end)
		for _, k := range t.kids {
			e := t.end
			rec(k, e)
		}
	}
	rec(t, len(enc))
	return
}

// cutPoint picks where to cut, often inside or right at an element.
func (r *Run) cutPoint(enc []byte, ts []*tlv) int {
	if len(ts) > 0 && r.n(3) > 0 {
		t := ts[r.n(len(ts))]
		k := t.off + r.n(t.end-t.off)
		if r.n(3) == 2 {
			k = t.off + r.n(4)
		}
		if k < len(enc) {
			return k
		}
	}
	return r.n(len(enc))
}

// inflate makes the length of one definite element exceed what is there.
func (r *Run) inflate(enc []byte, ts []*tlv, ends []int) []byte {
	for try := 0; try < 20; try++ {
		i := r.n(len(ts))
		t := ts[i]
		if t.indef {
			continue
		}
		l := int(enc[t.off+1])
		k := 0
		if l > 0x80 {
			k = l & 0x7F
		}
		start := t.off + 2 + k
		want := ends[i] - start + 1 + []int{0, r.n(10), r.n(1 << 16), 1 << 30}[r.n(4)]
		out := append([]byte(nil), enc...)
		if k == 0 {
			if want > 127 {
				want = 127
			}
			if want <= ends[i]-start {
				continue
			}
			out[t.off+1] = byte(want)
			return out
		}
		if k < 4 && want >= 1<<(8*k) {
			want = 1<<(8*k) - 1
		}
		if want <= ends[i]-start {
			continue
		}
		for j := 0; j < k; j++ {
			out[t.off+2+j] = byte(want >> (8 * (k - 1 - j)))
		}
		return out
	}
	return nil
}

func mainC10(r *Run) {
	par := r.netParams()
	c := r.newClient(9000, par)
	t := r.tree(2+r.n(12), 4, 3)
	c.bootstrap(encMsg(r.form(), t.wholeMsg()))
	p := c.peer()
	r.compare(c, t, "after the first answer")
	model := t
	cuts := 0
	for i := 1 + r.n(3); i > 0; i-- {
		w := model.clone()
		m := r.update(w)
		if m.Other != 0 || len(m.Elems) == 0 {
			continue
		}
		if model.clone().apply(m) > 0 {
			continue // what is an orphan at first would not be one when sent again
		}
		f := r.form()
		infl := r.n(3) == 2
		if infl {
			pad := r.n(2) == 1
			f = &berForm{pick: func() int {
				if pad && r.n(3) == 2 {
					return 2
				}
				return 1
			}}
		}
		enc := encMsg(f, m)
		ts, ends := tlvs(enc)
		r.S.Logf("message: %s", m.brief())
		k, next := 1+r.n(8), -1
		if r.n(8) == 7 && len(enc) <= 700 { // at every byte
			k, next = len(enc), 0
			r.S.Count("cut-everywhere")
		}
		for ; k > 0; k-- {
			var bad []byte
			if infl && next < 0 {
				bad = r.inflate(enc, ts, ends)
				r.S.Count("length-inflated")
			}
			if next >= 0 {
				bad = enc[:next]
				next++
				r.S.Count("payload-truncated")
			}
			if bad == nil {
				bad = enc[:r.cutPoint(enc, ts)]
				r.S.Count("payload-truncated")
			}
			a := allow(model, w, m)
			r.S.Logf("sends %d of %d bytes: % x", len(bad), len(enc), bad)
			p.postFrames(bad, nil, 0)
			if !c.settle(20 * sec) {
				r.Fail("not-processed", "the client did not process its input within 20 s")
			}
			got, err := observe(c.root)
			if err != nil {
				r.Fail("tree-corrupt", "after a truncated message: %v", err)
				return
			}
			if d := a.check(got); d != "" {
				r.Fail("invented", "after a message %s: %s", map[bool]string{true: "with a length exceeding what is there", false: fmt.Sprintf("cut to %d of %d bytes", len(bad), len(enc))}[infl], d)
			}
			model = got
			cuts++
		}
		if r.n(4) > 0 {
			p.postFrames(enc, nil, 0)
			if !c.settle(20 * sec) {
				r.Fail("not-processed", "the client did not process its input within 20 s")
			}
			model.apply(m)
			r.compare(c, model, "after the whole message")
			if d := diffTrees(w, model); d != "" {
				r.Fail("tree-differs", "the whole message after truncated ones gives another tree than alone: %s", d)
			}
		}
	}
	r.note("%d damaged messages judged", cuts)
	r.nontrivial = cuts > 0
}

// ---- C09: malformed messages ----

// checkLogger formats everything it is given, as a console logger does.
type checkLogger struct {
	n     int
	level logger.LogLevel
}

func (l *checkLogger) add(s string) { l.n += len(s) }
func (l *checkLogger) Error(e liberr.Error) {
	if e != nil {
		l.add(errStr(e))
		l.add(fmt.Sprint(e))
	}
}
func (l *checkLogger) Warn(format string, a ...interface{})  { l.add(fmt.Sprintf(format, a...)) }
func (l *checkLogger) Info(format string, a ...interface{})  { l.add(fmt.Sprintf(format, a...)) }
func (l *checkLogger) Debug(format string, a ...interface{}) { l.add(fmt.Sprintf(format, a...)) }
func (l *checkLogger) Debugln(a ...interface{})              { l.add(fmt.Sprintln(a...)) }
func (l *checkLogger) SetLogLevel(level logger.LogLevel)     { l.level = level }
func (l *checkLogger) GetLogLevel() logger.LogLevel          { return l.level }

var oddBytes = []byte{0, 0x80, 0xFF, 0x7F, 1, 0x81, 0x84, 0x88, 0x60, 0x61, 0x63, 0x6B, 0x64, 0x6D, 0x69, 0x6A, 0x71, 0x73, 0x74, 0x31, 0x30, 0xA0, 0xA1, 0xA2, 0xA3, 0xA4, 0xA5, 2, 4, 5, 9, 12, 13, 0x62, 0x1F, 0x3F, 0xBF, 0x65, 0x66, 0x67, 0x6E, 0x6F, 0x70, 0x72, 0x75, 0x77}

// mutate damages a payload in one way.
func (r *Run) mutate(b []byte, other func() []byte) []byte {
	out := append([]byte(nil), b...)
	at := func() int {
		if len(out) == 0 {
			return 0
		}
		return r.n(len(out))
	}
	ts, _ := tlvs(out)
	kinds := 14
	if r.commands {
		kinds = 15
	}
	switch r.n(kinds) {
	case 0:
		if len(out) > 0 {
			out[at()] ^= 1 << r.n(8)
			r.S.Count("bit-flip")
		}
	case 1:
		if len(out) > 0 {
			out[at()] = oddBytes[r.n(len(oddBytes))]
			r.S.Count("byte-set")
		}
	case 2:
		out = out[:at()]
		r.S.Count("truncation")
	case 3: // lose a range
		i := at()
		j := i + r.n(1+min(len(out)-i, 40))
		out = append(out[:i], out[j:]...)
		r.S.Count("range-lost")
	case 4: // repeat a range
		i := at()
		j := i + r.n(1+min(len(out)-i, 200))
		piece := append([]byte(nil), out[i:j]...)
		for k := 1 + r.n(5); k > 0; k-- {
			out = append(out[:j], append(append([]byte(nil), piece...), out[j:]...)...)
		}
		r.S.Count("range-repeated")
	case 5:
		i := at()
		out = append(out[:i], append(r.bytesN(1+r.n(20)), out[i:]...)...)
		r.S.Count("bytes-inserted")
	case 6: // splice with another message
		o := other()
		if len(o) > 0 {
			out = append(out[:at()], o[r.n(len(o)):]...)
			r.S.Count("spliced")
		}
	case 7: // absurd length
		if len(ts) > 0 {
			t := ts[r.n(len(ts))]
			ls := [][]byte{{0x84, 0xFF, 0xFF, 0xFF, 0xFF}, {0x84, 0x7F, 0xFF, 0xFF, 0xFF}, {0x88, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF},
				{0x88, 0x7F, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}, {0x83, 0xFF, 0xFF, 0xFF}, {0x82, 0xFF, 0xFF}, {0xFF}, {0x81}, {0x80}, {0}, {0x84, 0, 0, 0, 0}, {0x84, 0x80, 0, 0, 0}, {0x8F, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}}
			l := ls[r.n(len(ls))]
			h := t.off + 1
			n := 1
			if out[h] > 0x80 {
				n += int(out[h] & 0x7F)
			}
			out = append(out[:h], append(append([]byte(nil), l...), out[min(len(out), h+n):]...)...)
			r.S.Count("absurd-length")
		}
	case 8: // another tag
		if len(ts) > 0 {
			out[ts[r.n(len(ts))].off] = oddBytes[r.n(len(oddBytes))]
			r.S.Count("tag-changed")
		}
	case 9: // element moved elsewhere
		if len(ts) > 1 {
			a, b := ts[r.n(len(ts))], ts[r.n(len(ts))]
			piece := append([]byte(nil), out[a.off:a.end]...)
			out = append(out[:b.off], append(piece, out[b.end:]...)...)
			r.S.Count("element-replaced")
		}
	case 10: // empty an element
		if len(ts) > 0 {
			t := ts[r.n(len(ts))]
			out = append(out[:t.off+1], append([]byte{0}, out[t.end:]...)...)
			r.S.Count("element-emptied")
		}
	case 11: // element removed or repeated
		if len(ts) > 0 {
			t := ts[r.n(len(ts))]
			piece := append([]byte(nil), out[t.off:t.end]...)
			n := r.n(4)
			var rep []byte
			for ; n > 0; n-- {
				rep = append(rep, piece...)
			}
			out = append(out[:t.off], append(rep, out[t.end:]...)...)
			r.S.Count("element-repeated")
		}
	case 12: // wrapped deeply
		n := 1 + r.n(100)
		if r.n(3) == 2 {
			n = 1 + r.n(2500)
		}
		i := 0
		if len(ts) > 0 {
			i = ts[r.n(len(ts))].off
		}
		tag := []byte{0xA0, 0xA2, 0x64, 0x63, 0x60, 0x6B, 0x31, 0x30, 0xA1}[r.n(9)]
		tag2 := []byte{0xA0, 0xA2, 0x64, 0x63, tag}[r.n(5)]
		var w []byte
		for k := 0; k < n; k++ {
			x := tag
			if k%2 == 1 {
				x = tag2
			}
			w = append(w, x, 0x80)
		}
		tail := out[i:]
		if r.n(2) == 1 {
			for k := 0; k < n; k++ {
				tail = append(append([]byte(nil), tail...), 0, 0)
				if len(tail) > 20000 {
					break
				}
			}
		}
		out = append(out[:i:i], append(w, tail...)...)
		r.S.Count("deep-nesting")
	case 13: // a real nesting of elements
		n := 1 + r.n(400)
		var w []byte
		for k := 0; k < n; k++ {
			w = append(w, 0x63, 0x80, 0xA0, 0x80, 2, 1, byte(k), 0, 0, 0xA2, 0x80, 0x64, 0x80, 0xA0, 0x80)
		}
		out = append([]byte{0x60, 0x80, 0x6B, 0x80, 0xA0, 0x80}, w...)
		if r.n(2) == 1 {
			for k := 0; k < n*5+3; k++ {
				out = append(out, 0, 0)
			}
		}
		r.S.Count("deep-elements")
	case 14: // commands, which are the consumer's to send, among the elements
		cmd := func() []byte {
			w := []byte{0xA0, 0x80, 0x62, 0x80, 0xA0, 3, 2, 1, []byte{30, 31, 32, 33, 0, byte(r.n(256))}[r.n(6)], 0xA1, 3, 2, 1, byte(r.n(256)), 0, 0, 0, 0}
			switch r.n(6) {
			case 0:
				w = append(append([]byte(nil), w[:9]...), 0, 0, 0, 0)
			case 1: // with an invocation
				w = append(append([]byte(nil), w[:9]...), 0xA2, 0x80, 0x76, 0x80, 0xA0, 3, 2, 1, 1, 0xA1, 0x80, 0x30, 0x80, 0xA0, 3, 2, 1, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
			case 2: // with children
				w = append(append([]byte(nil), w[:9]...), 0xA2, 0x80, 0x64, 0x80, 0xA0, 0x80, 0x63, 0x80, 0xA0, 3, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
			}
			return w
		}
		out = []byte{0x60, 0x80, 0x6B, 0x80}
		for k := 1 + r.n(3); k > 0; k-- {
			if r.n(2) == 1 {
				out = append(out, cmd()...)
				continue
			}
			out = append(out, 0xA0, 0x80, 0x63, 0x80, 0xA0, 3, 2, 1, byte(r.n(6)), 0xA2, 0x80, 0x64, 0x80)
			for j := r.n(3); j > 0; j-- {
				out = append(out, cmd()...)
			}
			out = append(out, 0, 0, 0, 0, 0, 0, 0, 0)
		}
		out = append(out, 0, 0, 0, 0)
		r.S.Count("commands-inbound")
	}
	if len(out) > 24000 {
		out = out[:24000]
	}
	return out
}

// bulk makes a message which holds very many of one thing.
func (r *Run) bulk() []byte {
	n := 200 + r.n(4000)
	if r.n(3) == 2 {
		n = 4000 + r.n(12000)
	}
	num := func(i int) int32 { return int32(i) }
	if r.n(3) == 2 { // the same again and again
		num = func(i int) int32 { return 3 }
	}
	e := &Elem{Path: []int32{int32(2000000 + r.n(3))}, Kind: KMatrix, HasC: true, F: map[int]Val{}, Conns: map[int32]Conn{}}
	m := &Msg{Elems: []*Elem{e}}
	what := r.n(9)
	switch what {
	case 0:
		e.HasT = true
		for i := 0; i < n; i++ {
			e.Targets = append(e.Targets, num(i))
		}
	case 1:
		e.HasS = true
		for i := 0; i < n; i++ {
			e.Sources = append(e.Sources, num(i))
		}
	case 2:
		e.HasX = true
		for i := 0; i < n; i++ {
			e.Conns[num(i)] = Conn{Sources: []int32{1}}
			e.COrder = append(e.COrder, num(i))
		}
	case 3:
		e.HasX = true
		c := Conn{}
		for i := 0; i < n; i++ {
			c.Sources = append(c.Sources, num(i))
		}
		e.Conns[1] = c
		e.COrder = []int32{1}
	case 4:
		v := Val{T: 'L'}
		for i := 0; i < n; i++ {
			v.L = append(v.L, LabelV{[]int32{1, num(i)}, "l"})
		}
		e.F[10] = v
	case 5:
		e.Kind = KNode
		for i := 0; i < n; i++ {
			e.Kids = append(e.Kids, &Elem{Path: []int32{e.Path[0], num(i)}, Kind: KNode, F: map[int]Val{}, Conns: map[int32]Conn{}})
		}
	case 6:
		e.Kind = KNode
		for i := 0; i < n; i++ {
			m.Elems = append(m.Elems, &Elem{Path: []int32{2000010 + num(i)}, Kind: KNode, F: map[int]Val{}, Conns: map[int32]Conn{}})
		}
	case 7:
		e.Kind = KNode
		e.Qual = true
		for i := 0; i < 4*n; i++ {
			e.Path = append(e.Path, num(i)&0x7F)
		}
	case 8:
		e.Kind = KFunc
		v := Val{T: 'T'}
		for i := 0; i < n; i++ {
			v.U = append(v.U, TupleV{Type: 1, Name: "n"})
		}
		e.F[2] = v
	}
	r.S.Count(fmt.Sprintf("bulk-%d", what))
	return encMsg(r.form(), m)
}

func mainC09(r *Run) {
	r.commands = true
	par := r.netParams()
	c := r.newClient(9000, par)
	if r.n(2) == 1 {
		c.SetLogger(&checkLogger{})
	}
	t := r.tree(2+r.n(14), 4, 2)
	c.bootstrap(encMsg(r.form(), t.wholeMsg()))
	p := c.peer()
	cbs := r.n(4)
	for _, e := range t.all() {
		if cbs > 0 {
			cbs--
			if le := c.elem(e.Path); le != nil {
				le.AddListener(r.cb("listener"))
			}
		}
	}
	if r.n(2) == 1 {
		c.root.AddListener(r.cb("tree"))
	}
	bad := 0
	for i := 1 + r.n(4); i > 0; i-- {
		valid := func() []byte { return encMsg(r.form(), r.update(t.clone())) }
		total := 0
		var msgs [][]byte
		for k := 1 + r.n(4); k > 0; k-- {
			var b []byte
			switch r.n(8) {
			case 7:
				b = r.bytesN(r.n(200))
				r.S.Count("random-bytes")
			case 6:
				for j := r.n(60); j > 0; j-- {
					b = append(b, oddBytes[r.n(len(oddBytes))])
				}
				b = append([]byte{0x60, 0x80, 0x6B, 0x80, 0xA0, 0x80}, b...)
				r.S.Count("random-structure")
			default:
				b = valid()
				for j := 1 + r.n(3); j > 0; j-- {
					b = r.mutate(b, valid)
				}
			}
			if r.n(120) == 119 {
				b = r.bulk()
				if r.n(2) == 1 { // it is known the second time
					total += len(b)
					msgs = append(msgs, b)
				}
			}
			total += len(b)
			msgs = append(msgs, b)
		}
		if !r.multi {
			r.S.Cfg.BurstBudget = 400_000 + 300*int64(total)
			r.S.Cfg.AllocLimit = 1<<20 + 64*int64(total)
		}
		for _, b := range msgs {
			r.S.Logf("malformed: % x", clip(b))
			p.postFrames(b, nil, 0)
			bad++
		}
		// service must go on
		ka := p.keepResp
		p.post(s101KeepAliveReq(), 0, nil)
		fresh := &Elem{Path: []int32{int32(1000000 + i)}, Kind: KNode, HasC: true, F: map[int]Val{0: {T: 's', S: fmt.Sprintf("fresh%d", i)}}, Conns: map[int32]Conn{}}
		fresh.Qual = r.n(2) == 1
		fm := encMsg(r.form(), &Msg{Elems: []*Elem{fresh}})
		p.postFrames(fm, nil, 0)
		if !c.settle(60 * sec) {
			r.Fail("not-processed", "the client did not process its input within 60 s (virtual)")
		}
		if !c.IsConnected() {
			r.Fail("disconnected", "the client left the connection after malformed messages")
		}
		if !r.waitFor(2*sec, func() bool { return p.keepResp > ka }) {
			r.Fail("keepalive-unanswered", "after malformed messages a keep-alive request was not answered")
		}
		le := c.elem(fresh.Path)
		if le == nil {
			r.Fail("message-lost", "after malformed messages a well-formed one was not applied")
		}
		var got *Elem
		var oerr error
		r.S.Atomic(func() { got, oerr = observeElem(le, fresh.Path, nil, 0) })
		if oerr != nil || got.shown(0) != (Val{T: 's', S: fmt.Sprintf("fresh%d", i)}).String() {
			r.Fail("message-lost", "after malformed messages a well-formed one was not applied properly: %v %v", got, oerr)
		}
		n := len(p.reqs)
		p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {}
		var err liberr.Error
		r.call("GetDirectory", 2*sec, func() { err = c.GetDirectory(le, nil) })
		if err != nil {
			r.Fail("request-refused", "after malformed messages a request was refused: %s", errStr(err))
		}
		if !r.waitFor(2*sec, func() bool { return len(p.reqs) > n }) {
			r.Fail("request-lost", "after malformed messages a request was not sent")
		}
		if q := p.reqs[len(p.reqs)-1]; !samePath(q.path, fresh.Path) {
			r.Fail("request-wrong", "after malformed messages a request for %s addressed %s", pathStr(fresh.Path), pathStr(q.path))
		}
		if !r.multi {
			r.S.Cfg.BurstBudget = 3_000_000
			r.S.Cfg.AllocLimit = 64 << 20
		}
	}
	r.note("%d malformed messages", bad)
	r.nontrivial = bad > 0
}
