package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
	"simrt/simrt"
)

// Reading the library's objects through its exported API.

func errStr(e liberr.Error) string {
	if e == nil {
		return "<nil>"
	}
	if e.Message == nil {
		return "<error without message>"
	}
	return e.Message.Error()
}

func encodeLib(fn func(w *asn1.ASNWriter) liberr.Error) ([]byte, error) {
	w := asn1.NewASNWriter()
	if err := fn(w); err != nil {
		return nil, fmt.Errorf("encode: %s", errStr(err))
	}
	n := w.Len()
	if n == 0 {
		return nil, nil
	}
	b := make([]byte, n)
	k, err := w.Read(b)
	if err != nil {
		return nil, fmt.Errorf("writer read: %s", errStr(err))
	}
	return b[:k], nil
}

func kindOfElement(e *embertree.Element) (Kind, error) {
	k, _, ok := kindOfTag(e.GetTag())
	if !ok {
		return 0, fmt.Errorf("element with tag %#x", e.GetTag())
	}
	return k, nil
}

// observeElem converts one library element (and its subtree) into the model.
func observeElem(le *embertree.Element, path []int32, parent *embertree.Element, depth int) (*Elem, error) {
	if le == nil {
		return nil, fmt.Errorf("nil element at %s", pathStr(path))
	}
	if depth > 300 {
		return nil, fmt.Errorf("element chain deeper than 300 (cycle?)")
	}
	k, err := kindOfElement(le)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", pathStr(path), err)
	}
	e := &Elem{Path: append([]int32(nil), path...), Kind: k, F: map[int]Val{}, Conns: map[int32]Conn{}}
	if int32(le.Number) != path[len(path)-1] {
		return nil, fmt.Errorf("element stored as %s has number %d", pathStr(path), le.Number)
	}
	if gp := le.GetPath(); !samePath([]int32(gp), path) {
		return nil, fmt.Errorf("element stored as %s reports path %s", pathStr(path), pathStr([]int32(gp)))
	}
	if par, perr := le.GetParent(); perr != nil || par != parent {
		return nil, fmt.Errorf("element %s does not have the element above it as parent", pathStr(path))
	}
	if c := le.GetContent(); c != nil {
		b, err := encodeLib(c.Encode)
		if err != nil {
			return nil, fmt.Errorf("%s contents: %v", pathStr(path), err)
		}
		t, n, err := parseTLV(b, 0, 0)
		if err != nil || n != len(b) {
			return nil, fmt.Errorf("%s contents re-encoded to something undecodable: %v (% x)", pathStr(path), err, clip(b))
		}
		f, err := decSet(t, k)
		if err != nil {
			return nil, fmt.Errorf("%s contents re-encoded to something undecodable: %v", pathStr(path), err)
		}
		e.F, e.HasC = f, true
		if err := checkGetters(k, c, f); err != nil {
			return nil, fmt.Errorf("%s: %v", pathStr(path), err)
		}
	}
	if k == KMatrix {
		ts, terr := le.GetTargets()
		ss, serr := le.GetSources()
		cs, cerr := le.GetConnections()
		if terr != nil || serr != nil || cerr != nil {
			return nil, fmt.Errorf("%s: matrix accessors fail", pathStr(path))
		}
		for _, s := range ts {
			t, ok := s.(*embertree.Target)
			if !ok || t == nil {
				return nil, fmt.Errorf("%s: target of type %T", pathStr(path), s)
			}
			e.Targets = append(e.Targets, t.Number)
		}
		for _, s := range ss {
			t, ok := s.(*embertree.Source)
			if !ok || t == nil {
				return nil, fmt.Errorf("%s: source of type %T", pathStr(path), s)
			}
			e.Sources = append(e.Sources, t.Number)
		}
		for _, c := range cs {
			if c == nil {
				return nil, fmt.Errorf("%s: nil connection", pathStr(path))
			}
			if _, dup := e.Conns[c.Target]; dup {
				return nil, fmt.Errorf("%s: two connections for target %d", pathStr(path), c.Target)
			}
			e.Conns[c.Target] = Conn{Sources: append([]int32(nil), c.Sources...), Op: int64(c.GetOperation()), Disp: int64(c.GetDisposition())}
			e.COrder = append(e.COrder, c.Target)
		}
	}
	var ns []int
	for n := range le.Children {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for _, n := range ns {
		c, err := observeElem(le.Children[n], append(append([]int32(nil), path...), int32(n)), le, depth+1)
		if err != nil {
			return nil, err
		}
		e.Kids = append(e.Kids, c)
	}
	return e, nil
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// observe converts the whole tree. It runs outside virtual time.
func observe(root *embertree.RootElement) (t *Tree, err error) {
	simrt.S.Atomic(func() {
		defer func() {
			if r := recover(); r != nil {
				if simrt.KillRecovered(r) {
					panic(r)
				}
				err = fmt.Errorf("panic while reading the tree: %v", r)
			}
		}()
		t = &Tree{}
		var ns []int
		for n := range root.RootElementCollection {
			ns = append(ns, n)
		}
		sort.Ints(ns)
		for _, n := range ns {
			var e *Elem
			e, err = observeElem(root.RootElementCollection[n], []int32{int32(n)}, nil, 0)
			if err != nil {
				return
			}
			t.Top = append(t.Top, e)
		}
		err = lookups(root)
	})
	return
}

// lookups checks that elements are found where they are.
func lookups(root *embertree.RootElement) error {
	var walk func(le, parent *embertree.Element, path []int32) error
	walk = func(le, parent *embertree.Element, path []int32) error {
		fp, fe := root.GetElementByPath(asn1.RelativeOID(path))
		if fe != le || fp != parent {
			return fmt.Errorf("looking up %s does not give the element there and its parent", pathStr(path))
		}
		max := 0
		for _, n := range childNumbers(le.Children) {
			c := le.Children[n]
			if n > max {
				max = n
			}
			if err := walk(c, le, append(append([]int32(nil), path...), int32(n))); err != nil {
				return err
			}
		}
		if max < 1<<30 {
			if _, fe := root.GetElementByPath(append(append(asn1.RelativeOID(nil), path...), int32(max+1))); fe != nil {
				return fmt.Errorf("looking up %s.%d, which is not in the tree, gives an element", pathStr(path), max+1)
			}
		}
		return nil
	}
	for _, n := range childNumbers(root.RootElementCollection) {
		le := root.RootElementCollection[n]
		if root.GetElementByNumber(n) != le {
			return fmt.Errorf("looking up element %d does not give it", n)
		}
		if err := walk(le, nil, []int32{int32(n)}); err != nil {
			return err
		}
	}
	return nil
}

func sameReal(a, b float64) bool {
	return a == b || math.IsNaN(a) && math.IsNaN(b)
}

func checkGetters(k Kind, c embertree.EmberContents, f map[int]Val) error {
	str := func(n int, name string, fn func() (string, liberr.Error)) error {
		v, ok := f[n]
		s, err := fn()
		if ok && v.T == 's' {
			if err != nil || s != v.S {
				return fmt.Errorf("%s getter gives %q (%s) but the contents hold %s", name, s, errStr(err), v)
			}
		} else if err == nil && s != "" {
			return fmt.Errorf("%s getter gives %q though the field is not set", name, s)
		}
		return nil
	}
	num := func(n int, name string, fn func() (int64, liberr.Error)) error {
		v, ok := f[n]
		i, err := fn()
		if ok && v.T == 'i' {
			if err != nil || i != v.I {
				return fmt.Errorf("%s getter gives %d (%s) but the contents hold %s", name, i, errStr(err), v)
			}
		} else if err == nil && i != 0 {
			return fmt.Errorf("%s getter gives %d though the field is not set", name, i)
		}
		return nil
	}
	boolean := func(n int, name string, fn func() (bool, liberr.Error)) error {
		v, ok := f[n]
		b, err := fn()
		if ok && v.T == 'b' {
			if err != nil || b != v.B {
				return fmt.Errorf("%s getter gives %v (%s) but the contents hold %s", name, b, errStr(err), v)
			}
		} else if err == nil && b {
			return fmt.Errorf("%s getter gives true though the field is not set", name)
		}
		return nil
	}
	value := func(n int, name string, o *embertree.ContentParameter) error {
		v, ok := f[n]
		if o == nil {
			return fmt.Errorf("%s object is nil", name)
		}
		if !ok || v.T == 'n' || v.T == 'x' {
			if o.IsSet() {
				return fmt.Errorf("%s object is set but not part of the contents", name)
			}
			return nil
		}
		var got Val
		var err liberr.Error
		switch o.GetType() {
		case embertree.ValueTypeString:
			got.T = 's'
			got.S, err = o.GetString()
		case embertree.ValueTypeBool:
			got.T = 'b'
			got.B, err = o.GetBool()
		case embertree.ValueTypeInteger:
			got.T = 'i'
			got.I, err = o.GetInt()
		case embertree.ValueTypeReal:
			got.T = 'r'
			got.R, err = o.GetReal()
		case embertree.ValueTypeBuffer:
			var b []byte
			got.T = 'o'
			b, err = o.GetBuffer()
			got.S = string(b)
		case embertree.ValueTypeOID:
			var b asn1.RelativeOID
			got.T = 'O'
			b, err = o.GetRelativeOID()
			got.O = []int32(b)
		}
		if err != nil || got.String() != v.String() && !(got.T == 'r' && v.T == 'r' && sameReal(got.R, v.R)) {
			return fmt.Errorf("%s object reads as %s (%s) but the contents encode %s", name, got, errStr(err), v)
		}
		return nil
	}
	intg := func(fn func() (int, liberr.Error)) func() (int64, liberr.Error) {
		return func() (int64, liberr.Error) { i, e := fn(); return int64(i), e }
	}
	var errs []error
	switch x := c.(type) {
	case *embertree.NodeContents:
		errs = append(errs, str(0, "identifier", x.GetIdentifier), str(1, "description", x.GetDescription),
			boolean(2, "isRoot", x.GetIsRoot), boolean(3, "isOnline", x.GetIsOnline), str(4, "schemaIdentifiers", x.GetSchemaIdentifiers))
		o, _ := x.GetTemplateReference()
		if v := f[5]; !samePath([]int32(o), v.O) {
			errs = append(errs, fmt.Errorf("templateReference getter gives %s but the contents hold %s", pathStr([]int32(o)), v))
		}
	case *embertree.ParameterContents:
		errs = append(errs, str(0, "identifier", x.GetIdentifier), str(1, "description", x.GetDescription),
			value(2, "value", x.GetValueObject()), value(3, "minimum", x.GetMinimumObject()), value(4, "maximum", x.GetMaximumObject()),
			value(12, "default", x.GetDefaultObject()), str(6, "format", x.GetFormat), str(7, "enumeration", x.GetEnumeration),
			num(8, "factor", x.GetFactor), boolean(9, "isOnline", x.GetOnline), str(10, "formula", x.GetFormula),
			num(11, "step", x.GetStep), num(14, "streamIdentifier", x.GetStreamIdentifier))
	case *embertree.FunctionContents:
		errs = append(errs, str(0, "identifier", x.GetIdentifier), str(1, "description", x.GetDescription))
		tup := func(name string, ts []*embertree.TupleDescription, v Val) {
			got := Val{T: 'T'}
			for _, t := range ts {
				if t == nil {
					errs = append(errs, fmt.Errorf("nil tuple in %s", name))
					return
				}
				got.U = append(got.U, TupleV{int64(t.Type), t.Name})
			}
			if len(got.U) == 0 && len(v.U) == 0 {
				return
			}
			if got.String() != v.String() {
				errs = append(errs, fmt.Errorf("%s getter gives %s but the contents encode %s", name, got, v))
			}
		}
		tup("arguments", x.GetArguments(), f[2])
		tup("result", x.GetResult(), f[3])
	case *embertree.MatrixContent:
		errs = append(errs, str(0, "identifier", x.GetIdentifier), str(1, "description", x.GetDescription),
			num(4, "targetCount", intg(x.GetTargetCount)), num(5, "sourceCount", intg(x.GetSourceCount)),
			num(6, "maxTotalConnects", intg(x.GetMaxTotalConnects)), num(7, "maxConnectsPerTarget", intg(x.GetMaxConnectsPerTarget)),
			num(9, "gainParameterNumber", intg(x.GetGainParameterNumber)), str(11, "schemaIdentifiers", x.GetSchemaIdentifier),
			num(2, "type", func() (int64, liberr.Error) { v, e := x.GetType(); return int64(v), e }),
			num(3, "mode", func() (int64, liberr.Error) { v, e := x.GetMode(); return int64(v), e }))
		o, err := x.GetParameterLocation()
		if v := f[8]; v.T == 'O' && (err != nil || !samePath([]int32(o), v.O)) {
			errs = append(errs, fmt.Errorf("parametersLocation getter gives %s but the contents hold %s", pathStr([]int32(o)), v))
		}
	default:
		return fmt.Errorf("contents of type %T", c)
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func childNumbers(m map[int]*embertree.Element) []int {
	var ns []int
	for n := range m {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	return ns
}
