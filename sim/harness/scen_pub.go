package main

import (
	"fmt"
	"sort"
	"strings"

	simnet "simrt/net"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

// ---- C14: publishing a tree ----

// render writes what a message announces, independent of order.
func (m *Msg) render() string {
	var out []string
	var rec func(e *Elem)
	rec = func(e *Elem) {
		s := e.own()
		if e.Qual && len(e.Path) > 1 {
			s = "qualified " + s
		}
		if e.Cmd != nil {
			s += fmt.Sprintf(" command %d", e.CmdNum)
		}
		out = append(out, s)
		for _, k := range e.Kids {
			rec(k)
		}
	}
	for _, e := range m.Elems {
		rec(e)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func lineDiff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range as {
		if i >= len(bs) {
			return fmt.Sprintf("%q is missing", as[i])
		}
		if as[i] != bs[i] {
			return fmt.Sprintf("%q instead of %q", bs[i], as[i])
		}
	}
	return fmt.Sprintf("%q is too much", bs[len(as)])
}

// publishable limits a model element to what constructors and setters can express.
func (r *Run) publishable(e *Elem) {
	drop := func(ns ...int) {
		for _, n := range ns {
			delete(e.F, n)
		}
	}
	switch e.Kind {
	case KParam:
		drop(15, 16, 17, 18)
		for _, n := range []int{5, 13} {
			if _, ok := e.F[n]; ok {
				e.F[n] = Val{T: 's', S: r.Str()} // the setter takes a string
			}
		}
	case KMatrix:
		drop(10, 12)
		e.HasC = true
		if v, ok := e.F[8]; ok && v.T != 'O' {
			e.F[8] = Val{T: 'O', O: r.OID()}
		}
		for _, tg := range e.COrder {
			c := e.Conns[tg]
			c.Op = int64(r.n(3))
			e.Conns[tg] = c
		}
	case KFunc:
		drop(4)
	}
	for _, k := range e.Kids {
		r.publishable(k)
	}
}

func must(r *Run, what string, err liberr.Error) {
	if err != nil {
		r.Fail("setter-failed", "%s: %s", what, errStr(err))
	}
}

func setValue(o *embertree.ContentParameter, v Val) {
	switch v.T {
	case 'i':
		o.SetInt(v.I)
	case 's':
		o.SetString(v.S)
	case 'r':
		o.SetReal(v.R)
	case 'b':
		o.SetBool(v.B)
	case 'o':
		o.SetBuffer([]byte(v.S))
	case 'O':
		o.SetRelativeOID(asn1.RelativeOID(v.O))
	}
}

// set stores one field through its setter.
func (r *Run) set(c interface{}, n int, v Val) {
	switch x := c.(type) {
	case *embertree.NodeContents:
		switch n {
		case 0:
			x.SetIdentifier(v.S)
		case 1:
			x.SetDescription(v.S)
		case 2:
			x.SetIsRoot(v.B)
		case 3:
			x.SetIsOnline(v.B)
		case 4:
			x.SetSchemaIdentifiers(v.S)
		case 5:
			x.SetTemplateReference(asn1.RelativeOID(v.O))
		}
	case *embertree.ParameterContents:
		switch n {
		case 0:
			x.SetIdentifier(v.S)
		case 1:
			x.SetDescription(v.S)
		case 2:
			setValue(x.GetValueObject(), v)
		case 3:
			setValue(x.GetMinimumObject(), v)
		case 4:
			setValue(x.GetMaximumObject(), v)
		case 5:
			x.SetAccess(v.S)
		case 6:
			x.SetFormat(v.S)
		case 7:
			x.SetEnumeration(v.S)
		case 8:
			x.SetFactor(v.I)
		case 9:
			x.SetOnline(v.B)
		case 10:
			x.SetFormula(v.S)
		case 11:
			x.SetStep(v.I)
		case 12:
			setValue(x.GetDefaultObject(), v)
		case 13:
			x.SetType(v.S)
		case 14:
			x.SetStreanIdentifier(v.I)
		}
	case *embertree.FunctionContents:
		tuples := func() []*embertree.TupleDescription {
			ts := []*embertree.TupleDescription{}
			for _, u := range v.U {
				ts = append(ts, embertree.NewArgument(embertree.ParameterType(u.Type), u.Name))
			}
			return ts
		}
		switch n {
		case 0:
			x.SetIdentifier(v.S)
		case 1:
			x.SetDescription(v.S)
		case 2:
			x.SetArguments(tuples())
		case 3:
			x.SetResult(tuples())
		}
	case *embertree.MatrixContent:
		switch n {
		case 0:
			x.SetIdentifier(v.S)
		case 1:
			x.SetDescription(v.S)
		case 2:
			must(r, "SetType", x.SetType(embertree.MatrixType(v.I)))
		case 3:
			must(r, "SetMode", x.SetMode(embertree.MatrixMode(v.I)))
		case 4:
			must(r, "SetTargetCount", x.SetTargetCount(int(v.I)))
		case 5:
			must(r, "SetSourceCount", x.SetSourceCount(int(v.I)))
		case 6:
			must(r, "SetMaxTotalConnects", x.SetMaxTotalConnects(int(v.I)))
		case 7:
			must(r, "SetMaxConnectsPerTarget", x.SetMaxConnectsPerTarget(int(v.I)))
		case 8:
			must(r, "SetParameterLocation", x.SetParameterLocation(asn1.RelativeOID(v.O)))
		case 9:
			must(r, "SetGainParameterNumber", x.SetGainParameterNumber(int(v.I)))
		case 11:
			must(r, "SetSchemaIdentifier", x.SetSchemaIdentifier(v.S))
		}
	default:
		r.harnessBug("contents of type %T", c)
	}
}

// publisher holds the library's objects for a model tree.
type publisher struct {
	r    *Run
	t    *Tree
	root *embertree.RootElement
	lib  map[*Elem]*embertree.Element
}

func (b *publisher) matrixParts(e *Elem, le *embertree.Element) {
	r := b.r
	if e.HasT {
		var ss []embertree.Signal
		for _, n := range e.Targets {
			ss = append(ss, embertree.NewTarget(n))
		}
		must(r, "SetTargets", le.SetTargets(ss))
	}
	if e.HasS {
		var ss []embertree.Signal
		for _, n := range e.Sources {
			ss = append(ss, embertree.NewSource(n))
		}
		must(r, "SetSources", le.SetSources(ss))
	}
	if e.HasX {
		var cs []*embertree.Connection
		for _, tg := range e.COrder {
			m := e.Conns[tg]
			c := &embertree.Connection{Target: tg, Sources: append([]int32(nil), m.Sources...)}
			must(r, "SetOperation", c.SetOperation(int(m.Op)))
			must(r, "SetDisposition", c.SetDisposition(int(m.Disp)))
			cs = append(cs, c)
		}
		must(r, "SetConnections", le.SetConnections(cs))
	}
}

// setAll stores all fields, some of them after another value.
func (b *publisher) setAll(c interface{}, e *Elem) {
	r := b.r
	for _, n := range fieldsOf[e.Kind] {
		v, ok := e.F[n]
		if !ok {
			continue
		}
		if r.n(6) == 5 {
			x := r.field(e.Kind, n)
			if x.T == v.T || e.Kind == KParam && (n == 2 || n == 12) {
				r.set(c, n, x)
			}
		}
		r.set(c, n, v)
	}
}

// make builds the element and its subtree with the library's constructors.
func (b *publisher) make(e *Elem, qual bool) *embertree.Element {
	r := b.r
	var le *embertree.Element
	path := append(asn1.RelativeOID(nil), e.Path...)
	num := int(e.Num())
	switch {
	case e.Kind == KMatrix:
		mt, mm := embertree.MatrixType(e.F[2].I), embertree.MatrixMode(e.F[3].I)
		if qual {
			le = embertree.NewQualifiedMatrix(path, mt, mm)
		} else {
			var err liberr.Error
			le, err = embertree.NewMatrix(num, mt, mm)
			must(r, "NewMatrix", err)
		}
	case e.Kind == KNode && qual:
		le = embertree.NewQualifiedNode(path)
	case e.Kind == KNode:
		le = embertree.NewNode(num)
	case e.Kind == KParam && qual:
		le = embertree.NewQualifiedParameter(path)
	case e.Kind == KParam:
		le = embertree.NewParameter(num)
	case qual:
		le = embertree.NewQualifiedElement(embertree.QualifiedFunctionApplication, path, embertree.NewFunctionContents)
	default:
		le = embertree.NewFunction(num)
	}
	if le == nil {
		r.Fail("constructor-failed", "no element was made for %s %s", e.Kind, pathStr(e.Path))
		return nil
	}
	fill := func() {
		if e.Kind == KMatrix {
			b.setAll(le.GetContent(), e)
			b.matrixParts(e, le)
		} else if e.HasC {
			b.setAll(le.CreateContent(), e)
		}
	}
	late := r.n(2) == 1
	if !late {
		fill()
	}
	for _, k := range e.Kids {
		kl := b.make(k, r.n(6) == 5)
		must(r, "AddChild", le.AddChild(kl))
		b.lib[k] = kl
	}
	if late {
		fill()
	}
	return le
}

// change alters the tree and its model alike.
func (b *publisher) change() {
	r := b.r
	all := b.t.all()
	e := all[r.n(len(all))]
	le := b.lib[e]
	switch r.n(4) {
	case 0, 1:
		if !e.HasC {
			e.HasC = true
			le.CreateContent()
		}
		u := &Elem{Path: e.Path, Kind: e.Kind, F: map[int]Val{}, Conns: map[int32]Conn{}}
		fs := fieldsOf[e.Kind]
		n := fs[r.n(len(fs))]
		u.F[n] = r.field(e.Kind, n)
		r.publishable(u)
		if v, ok := u.F[n]; ok && (v.T != 'T' || len(v.U) > 0) { // no arguments: not mentioned
			r.set(le.GetContent(), n, v)
			e.F[n] = v
		}
	case 2:
		if e.Kind == KMatrix {
			u := &Elem{Path: e.Path, Kind: e.Kind, F: map[int]Val{}, Conns: map[int32]Conn{}}
			r.matrixParts(u)
			r.publishable(u)
			b.matrixParts(u, le)
			if u.HasT {
				e.HasT, e.Targets = true, u.Targets
			}
			if u.HasS {
				e.HasS, e.Sources = true, u.Sources
			}
			if u.HasX {
				e.HasX, e.Conns, e.COrder = true, u.Conns, u.COrder
			}
		}
	case 3:
		if e.Kind == KNode {
			k := r.newElem(e, e.Kids, r.kind(), 3)
			r.publishable(k)
			kl := b.make(k, r.n(6) == 5)
			b.lib[k] = kl
			must(r, "AddChild", le.AddChild(kl))
			e.Kids = append(e.Kids, k)
		}
	}
}

// encode gives the payload of a root and the message it was found to be.
func (b *publisher) encode(root *embertree.RootElement, m *Msg) ([]byte, *Msg) {
	r := b.r
	p, err := encodeLib(root.Encode)
	if err != nil {
		r.Fail("encode-failed", "a published tree cannot be encoded: %v", err)
	}
	want := m.render()
	got, err := decMsg(p)
	if err != nil {
		r.Fail("encoding-invalid", "a published tree is encoded to something an independent Glow receiver rejects: %v (% x)", err, clip(p))
		return p, m
	}
	if got.render() != want {
		r.Fail("encoding-differs", "a published tree is encoded as another one: %s", lineDiff(want, got.render()))
	}
	return p, got
}

// publication makes the next message: the whole tree or some qualified elements.
func (b *publisher) publication(whole bool) (*embertree.RootElement, *Msg) {
	r := b.r
	if whole {
		m := b.t.wholeMsg()
		return b.root, m
	}
	root := embertree.NewTree()
	m := &Msg{}
	used := map[int32]bool{}
	all := b.t.all()
	for k := 1 + r.n(3); k > 0; k-- {
		e := all[r.n(len(all))]
		if used[e.Num()] {
			continue // the root collection is keyed by the last number
		}
		used[e.Num()] = true
		var u *Elem
		if r.n(2) == 1 {
			u = e.clone(false)
		} else {
			u = nested(e)
		}
		u.Qual = true
		root.AddElement(b.make(u, true))
		m.Elems = append(m.Elems, u)
	}
	return root, m
}

func (r *Run) newPublisher(n, depth, dense int) *publisher {
	b := &publisher{r: r, t: r.tree(n, depth, dense), lib: map[*Elem]*embertree.Element{}}
	if r.n(2) == 1 {
		b.root = embertree.NewTree()
	} else {
		b.root = embertree.NewRoot()
	}
	for _, e := range b.t.Top {
		r.publishable(e)
		le := b.make(e, false)
		b.lib[e] = le
		b.root.AddElement(le)
	}
	return b
}

type published struct {
	payload []byte
	m       *Msg
	damaged bool
}

func mainC14(r *Run) {
	if r.n(60) == 59 {
		r.big = true
	}
	if r.n(300) == 299 && !r.multi {
		r.huge()
		return
	}
	if r.n(8) == 7 {
		r.relay()
		return
	}
	b := r.newPublisher(1+r.n(30), 6, 2+r.n(6))
	if r.n(4) == 3 {
		r.toClient(b)
		return
	}
	var pubs []*published
	var frames [][]byte
	damages := 0
	for i := 1 + r.n(5); i > 0; i-- {
		root, m := b.publication(len(pubs) == 0 || r.n(2) == 1)
		p, m := b.encode(root, m)
		pubs = append(pubs, &published{payload: p, m: m})
		fs := libFrames(r, p)
		if r.n(4) == 3 { // encoding again gives the same
			b.encode(root, m)
			r.S.Count("encoded-again")
		}
		if r.n(3) == 2 {
			r.S.Count("transmission-damaged")
			damages++
			frames = append(frames, r.damage(fs, 1+r.n(2)))
		} else {
			frames = append(frames, fs...)
			if r.n(5) == 4 {
				r.S.Count("transmission-repeated")
				frames = append(frames, fs...)
			}
		}
		for k := r.n(4); k > 0; k-- {
			b.change()
		}
	}
	var stream []byte
	for _, f := range frames {
		stream = append(stream, f...)
	}
	x, y := simnet.Pair(r.netParams())
	r.S.Spawn("link", func() {
		rest := append([]byte(nil), stream...)
		for len(rest) > 0 {
			k := len(rest)
			if r.n(2) == 1 {
				k = 1 + r.n(k)
			}
			if _, err := x.Write(rest[:k]); err != nil {
				return
			}
			rest = rest[k:]
		}
		x.CloseWrite()
	})
	var h handed
	dec := socket.NewS101Decoder(
		func([]byte) liberr.Error { return nil },
		func([]byte) liberr.Error { return nil },
		func(p []byte) liberr.Error { h.add(p); return nil },
		func(liberr.Error) {})
	if r.n(8) == 7 {
		dec.SetLogger(&checkLogger{})
	}
	buf := make([]byte, []int{65536, 512, 7, 1}[r.n(4)])
	for {
		k, err := y.Read(buf)
		if k > 0 {
			dec.DecodeBuffer(k, buf)
		}
		if err != nil {
			break
		}
	}
	var sent [][]byte
	for _, p := range pubs {
		sent = append(sent, p.payload)
	}
	if damages == 0 {
		rx := s101Rx{}
		n := 0
		rx.onMsg = func(p []byte) {
			if n >= len(sent) || string(p) != string(sent[n]) {
				if n == 0 || string(p) != string(sent[n-1]) {
					r.Fail("frame-wrong", "message %d arrived differently at an independent S101 receiver", n)
				}
				return
			}
			n++
		}
		rx.feed(stream)
		if n != len(sent) || len(rx.errs) > 0 {
			r.Fail("frame-wrong", "%d of %d messages arrived at an independent S101 receiver (%v)", n, len(sent), rx.errs)
		}
	}
	judgeDamage(r, sent, h.got, stream)
	// what arrived is what was published
	byPayload := map[string]*published{}
	for _, p := range pubs {
		byPayload[string(p.payload)] = p
	}
	tree, model := embertree.NewTree(), &Tree{}
	arrived := 0
	for i, g := range h.got {
		p := byPayload[string(g)]
		if p == nil {
			return // intact packets of several messages in succession
		}
		arrived++
		r.note("arrived %d: %s", i, p.m.brief())
		err := tree.Decode(asn1.NewASNReader(g))
		if err != nil {
			r.Fail("decode-failed", "published message %d is rejected by the library's decoder: %s", i, errStr(err))
		}
		model.apply(p.m)
		got, oerr := observe(tree)
		if oerr != nil {
			r.Fail("tree-corrupt", "%v", oerr)
			return
		}
		if d := diffTrees(model, got); d != "" {
			r.Fail("tree-differs", "after published message %d the receiver's tree differs: %s", i, d)
		}
	}
	if arrived > 0 { // the receiver publishes what it has
		q := &publisher{r: r, t: model, root: tree}
		q.encode(tree, model.wholeMsg())
		r.S.Count("relayed")
	}
	r.note("%d publications, %d damaged, %d arrived", len(pubs), damages, len(h.got))
	r.nontrivial = arrived > 0
}

// relay publishes a tree which another provider announced.
func (r *Run) relay() {
	t := r.tree(1+r.n(30), 5, 2+r.n(5))
	tree := embertree.NewTree()
	q := &publisher{r: r, t: t, root: tree}
	if err := tree.Decode(asn1.NewASNReader(encMsg(r.form(), t.wholeMsg()))); err != nil {
		r.Fail("decode-failed", "the announced tree is rejected: %s", errStr(err))
	}
	for i := r.n(6); i >= 0; i-- {
		for k := r.n(4); k > 0; k-- {
			m := r.update(t)
			if m.Other == 0 && !m.NoCollection {
				tree.Decode(asn1.NewASNReader(encMsg(r.form(), m)))
			}
		}
		q.encode(tree, t.wholeMsg())
	}
	r.S.Count("relayed-received")
	r.nontrivial = true
}

// huge publishes a value whose length takes four bytes.
func (r *Run) huge() {
	r.S.Cfg.AllocLimit = 4 << 30
	r.S.Cfg.BurstBudget = 400_000_000
	r.S.Cfg.StepBudget = 2_000_000_000
	n := 1<<24 - 40 + r.n(60)
	text := r.n(2) == 1
	val := Val{T: 'o', S: strings.Repeat("\x00\xFF\x80a", n/4+1)[:n]}
	if text {
		val = Val{T: 's', S: strings.Repeat("long", n/4+1)[:n]}
	}
	par := &Elem{Path: []int32{1, 2, 3}, Kind: KParam, HasC: true, F: map[int]Val{2: val, 0: {T: 's', S: "p"}}, Conns: map[int32]Conn{}}
	mid := &Elem{Path: []int32{1, 2}, Kind: KNode, HasC: true, F: map[int]Val{0: {T: 's', S: "m"}}, Kids: []*Elem{par}, Conns: map[int32]Conn{}}
	top := &Elem{Path: []int32{1}, Kind: KNode, HasC: true, F: map[int]Val{0: {T: 's', S: "t"}}, Kids: []*Elem{mid}, Conns: map[int32]Conn{}}
	t := &Tree{Top: []*Elem{top}}
	b := &publisher{r: r, t: t, lib: map[*Elem]*embertree.Element{}, root: embertree.NewTree()}
	b.root.AddElement(b.make(top, false))
	p, m := b.encode(b.root, t.wholeMsg())
	tree, model := embertree.NewTree(), &Tree{}
	if err := tree.Decode(asn1.NewASNReader(p)); err != nil {
		r.Fail("decode-failed", "a published tree with a value of %d bytes is rejected by the library's decoder: %s", n, errStr(err))
	}
	model.apply(m)
	got, oerr := observe(tree)
	if oerr != nil {
		r.Fail("tree-corrupt", "%v", oerr)
		return
	}
	if diffTrees(model, got) != "" {
		r.Fail("tree-differs", "a published value of %d bytes arrives differently", n)
	}
	r.S.Count("huge-value")
	r.nontrivial = true
}

// toClient publishes to the library's own client.
func (r *Run) toClient(b *publisher) {
	par := r.netParams()
	c := r.newClient(9000, par)
	m := b.t.wholeMsg()
	c.connect()
	p := c.peer()
	model := &Tree{}
	model.apply(m)
	payload, _ := b.encode(b.root, m)
	p.maxPkt = 1024
	c.fetchRoot(payload)
	r.compare(c, model, "after the published tree arrived")
	for i := r.n(5); i > 0; i-- {
		for k := r.n(4); k > 0; k-- {
			b.change()
		}
		root, m := b.publication(r.n(2) == 1)
		for _, e := range m.Elems {
			if len(e.Path) > 1 && model.find(e.Path[:len(e.Path)-1]) == nil {
				root, m = b.publication(true)
				break
			}
		}
		payload, m := b.encode(root, m)
		for _, f := range libFrames(r, payload) {
			p.post(f, 0, nil)
			p.keepNoise(8)
		}
		model.apply(m)
		if !c.settle(60 * sec) {
			r.Fail("not-processed", "the client did not process its input within 60 s")
		}
		r.compare(c, model, "after a published message arrived")
	}
	r.S.Count("published-to-client")
	r.nontrivial = true
}
