package main

import (
	"bytes"
	"fmt"

	simnet "simrt/net"

	liberr "github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

// ---- C01: framing is transparent ----

func (g *Gen) payload() []byte {
	var n int
	switch g.n(7) {
	case 0, 1:
		n = 1 + g.n(60)
	case 2:
		n = edgeLens[g.n(len(edgeLens))]
	case 3:
		n = 480 + g.n(80) // escaped size near the packet limit
	case 4:
		n = 1000 + g.n(60)
	case 5:
		n = 1 + g.n(6000)
	case 6:
		n = 2040 + g.n(20)
		if g.n(12) == 11 {
			n = 65000 + g.n(6000)
			if g.n(4) == 3 {
				n *= 1 + g.n(5)
			}
		}
	}
	return g.bytesN(n)
}

func libFrames(r *Run, m []byte) [][]byte {
	l := socket.EncodeMessage(m)
	var out [][]byte
	for i := 0; i < l.Size(); i++ {
		b, err := l.GetBytesAt(i)
		if err != nil {
			r.Fail("encode-error", "frame %d of a %d byte message: %s", i, len(m), errStr(err))
		}
		out = append(out, b)
	}
	return out
}

// handed records what a decoder handed over, and that it stays intact.
type handed struct {
	got  [][]byte
	copy [][]byte
}

func (h *handed) add(p []byte) {
	h.got = append(h.got, p)
	h.copy = append(h.copy, append([]byte(nil), p...))
}

func (h *handed) intact() int {
	for i := range h.got {
		if !bytes.Equal(h.got[i], h.copy[i]) {
			return i
		}
	}
	return -1
}

type evRec struct {
	kind s101Kind
	msg  int
}

func mainC01(r *Run) {
	n := 1 + r.n(12)
	many := r.n(60) == 59
	if many { // a long life of one decoder
		n = 150 + r.n(1000)
		r.S.Count("long-stream")
	}
	useLib := r.n(2) == 1
	var stream []byte
	var sent [][]byte
	var want []evRec
	strict := s101Rx{}
	for i := 0; i < n; i++ {
		var m []byte
		if many {
			m = r.bytesN(1 + r.n(40))
		} else {
			m = r.payload()
		}
		if r.n(25) == 24 {
			m = nil
		}
		var fr [][]byte
		orig := append([]byte(nil), m...)
		if useLib {
			fr = libFrames(r, m)
			if !bytes.Equal(m, orig) {
				r.Fail("encoder-modified-input", "EncodeMessage changed the caller's buffer")
			}
		} else {
			max := []int{1024, 1, 3, 17, 100, 512, 1500, 100000}[r.n(8)]
			if max < 10 && len(m) > 400 {
				max = 64
			}
			fr = s101Split(m, max, r.n(8) == 7)
		}
		if len(fr) > 1 {
			r.S.Count("multi-packet-message")
		}
		sent = append(sent, orig)
		for j, f := range fr {
			if r.n(8) == 7 {
				k := fkKeepReq
				kf := s101KeepAliveReq()
				if r.n(2) == 1 {
					k, kf = fkKeepResp, s101KeepAliveResp()
				}
				if useLib {
					if k == fkKeepReq {
						kf = socket.GetKeepaliveRequest().Bytes()
					} else {
						kf = socket.GetKeepAliveResponse().Bytes()
					}
				}
				stream = append(stream, kf...)
				want = append(want, evRec{kind: k})
				if j > 0 {
					r.S.Count("keepalive-inside-message")
				}
			}
			stream = append(stream, f...)
		}
		want = append(want, evRec{fkEmber, i})
	}
	// what the library emitted must be well formed for an independent receiver
	strict.feed(stream)
	if useLib {
		if len(strict.errs) > 0 {
			r.Fail("bad-frame", "the encoder's output is not well-formed S101: %s", strict.errs[0])
		}
		if len(strict.msgs) != len(sent) {
			r.Fail("encoder-lost-message", "an independent receiver sees %d messages instead of %d", len(strict.msgs), len(sent))
		}
		for i := range sent {
			if !bytes.Equal(strict.msgs[i], sent[i]) {
				r.Fail("encoder-changed-message", "an independent receiver reads message %d (%d bytes) as %d bytes: % x", i, len(sent[i]), len(strict.msgs[i]), clip(strict.msgs[i]))
			}
		}
	} else if len(strict.errs) > 0 || len(strict.msgs) != len(sent) {
		r.harnessBug("reference codec disagrees with itself: %v", strict.errs)
	}
	r.note("%d messages, %d stream bytes, encoder lib=%v", n, len(stream), useLib)

	par := r.netParams()
	a, b := simnet.Pair(par)
	r.S.Spawn("sender", func() {
		for len(stream) > 0 {
			k := len(stream)
			if r.n(3) == 2 {
				k = 1 + r.n(len(stream))
			}
			if _, err := a.Write(stream[:k]); err != nil {
				return
			}
			stream = stream[k:]
			if r.n(4) == 3 {
				r.sleep(int64(r.n(20)) * ms)
			}
		}
		a.CloseWrite()
	})
	var h handed
	var got []evRec
	pos := 0
	check := func(k s101Kind, p []byte) {
		if pos >= len(want) {
			r.Fail("extra-delivery", "delivery %d although only %d were sent", pos+1, len(want))
		}
		w := want[pos]
		if w.kind != k {
			r.Fail("wrong-delivery", "delivery %d is of kind %d instead of %d", pos, k, w.kind)
		}
		if k == fkEmber && !bytes.Equal(p, sent[w.msg]) {
			r.Fail("wrong-message", "message %d (%d bytes) was handed over as %d bytes, first difference at %d", w.msg, len(sent[w.msg]), len(p), firstDiff(sent[w.msg], p))
		}
		got = append(got, evRec{k, w.msg})
		pos++
	}
	handlerErr := r.n(5) == 4
	var dec *socket.S101Decoder
	ret := func() liberr.Error {
		if handlerErr && r.n(2) == 1 {
			return liberr.New("handler error")
		}
		return nil
	}
	dec = socket.NewS101Decoder(
		func(p []byte) liberr.Error { check(fkKeepReq, nil); return ret() },
		func(p []byte) liberr.Error { check(fkKeepResp, nil); return ret() },
		func(p []byte) liberr.Error { h.add(p); check(fkEmber, p); return ret() },
		func(e liberr.Error) {
			if !handlerErr {
				r.Fail("spurious-error", "an undamaged stream was reported as damaged: %s", errStr(e))
			}
		})
	if r.n(8) == 7 {
		dec.SetLogger(&checkLogger{})
	}
	bufLen := []int{65536, 1, 2, 7, 1024}[r.n(5)]
	buf := make([]byte, bufLen)
	for {
		k, err := b.Read(buf)
		if k > 0 {
			dec.DecodeBuffer(k, buf)
			for i := range buf[:k] { // the caller reuses its buffer
				buf[i] = 0xA5
			}
		}
		if err != nil {
			break
		}
	}
	if pos != len(want) {
		w := want[pos]
		r.Fail("lost-message", "only %d of %d deliveries arrived; the next expected is kind %d message %d", pos, len(want), w.kind, w.msg)
	}
	if i := h.intact(); i >= 0 {
		r.Fail("message-changed-later", "message %d changed after it was handed over", i)
	}
	r.nontrivial = len(want) > 0
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// ---- C02: damage ----

// damage alters a framed stream; msgs of the reference scan tell what must still arrive.
func (r *Run) damage(frames [][]byte, n int) []byte {
	for ; n > 0 && len(frames) > 0; n-- {
		i := r.n(len(frames))
		f := frames[i]
		if len(f) == 0 {
			continue
		}
		rnd := func() byte {
			switch r.n(4) {
			case 0:
				return byte(r.n(256))
			case 1:
				return bof
			case 2:
				return eof
			}
			return esc
		}
		switch r.n(13) {
		case 0: // flip one bit
			g := append([]byte(nil), f...)
			p := r.n(len(g))
			g[p] ^= 1 << r.n(8)
			frames[i] = g
			r.S.Count("damage-bit-flip")
		case 1: // overwrite
			g := append([]byte(nil), f...)
			g[r.n(len(g))] = rnd()
			frames[i] = g
			r.S.Count("damage-overwrite")
		case 2: // lose bytes
			p := r.n(len(f))
			k := 1 + r.n(4)
			if p+k > len(f) {
				k = len(f) - p
			}
			frames[i] = append(append([]byte(nil), f[:p]...), f[p+k:]...)
			r.S.Count("damage-lost-bytes")
		case 3: // insert bytes
			p := r.n(len(f) + 1)
			g := append([]byte(nil), f[:p]...)
			for k := 1 + r.n(3); k > 0; k-- {
				g = append(g, rnd())
			}
			frames[i] = append(g, f[p:]...)
			r.S.Count("damage-inserted-bytes")
		case 4: // repeat bytes
			p := r.n(len(f))
			k := 1 + r.n(len(f)-p)
			g := append([]byte(nil), f[:p+k]...)
			frames[i] = append(g, f[p:]...)
			r.S.Count("damage-repeated-bytes")
		case 5: // cut short
			frames[i] = append([]byte(nil), f[:r.n(len(f))]...)
			r.S.Count("damage-cut-frame")
		case 6: // cut the beginning
			frames[i] = append([]byte(nil), f[r.n(len(f)):]...)
			r.S.Count("damage-cut-head")
		case 7: // cut right after an escape byte if there is one
			for p := range f {
				if f[p] == esc && r.n(2) == 0 {
					frames[i] = append([]byte(nil), f[:p+1]...)
					r.S.Count("damage-cut-in-escape")
					break
				}
			}
		case 8: // garbage between frames
			var g []byte
			for k := 1 + r.n(6); k > 0; k-- {
				g = append(g, rnd())
			}
			frames[i] = append(g, f...)
			r.S.Count("damage-garbage")
		case 9: // whole frame twice
			frames[i] = append(append([]byte(nil), f...), f...)
			r.S.Count("damage-frame-repeated")
		case 10: // lost frame: only the first or last packet of a message (a lost middle packet leaves no trace)
			fr := wholeFrame(f)
			if fr != nil && fr.kind == fkEmber && fr.flags&(flFirst|flLast) != 0 {
				frames[i] = nil
				r.S.Count("damage-lost-packet")
			}
		case 11, 12: // a frame with a right CRC which carries something else
			frames[i] = append(r.foreignFrame(f), f...)
			r.S.Count("damage-foreign-frame")
		}
	}
	var out []byte
	for _, f := range frames {
		out = append(out, f...)
	}
	return out
}

// foreignFrame is a frame which is no Ember+ packet though its CRC is right: of another slot, another
// message type, another command or another DTD. What it carries would do as a message or packet.
func (r *Run) foreignFrame(f []byte) []byte {
	flags := []byte{flFirst | flLast, flFirst, 0, flLast}[r.n(4)]
	payload := encMsg(nil, &Msg{Elems: []*Elem{{Path: []int32{88}, Kind: KNode, HasC: true, F: map[int]Val{0: {T: 's', S: "foreign"}}}}})
	if fr := wholeFrame(f); fr != nil && fr.kind == fkEmber && r.n(2) == 1 {
		// as if it were a packet of the message it meets
		flags = fr.flags
	}
	body := append([]byte{0, 0x0E, 0, 1, flags, 1, 2, 0x1F, 0x02}, payload...)
	other := func(not ...byte) byte {
		b := byte(r.n([]int{16, 256}[r.n(2)]))
		for bytes.IndexByte(not, b) >= 0 {
			b++
		}
		return b
	}
	switch r.n(5) {
	case 4: // too short to be anything
		body = body[:r.n(9)]
		r.S.Count("damage-stub-frame")
	case 0:
		body[0] = other(0)
	case 1:
		body[1] = other(0x0E)
	case 2:
		body[2] = other(0, 1, 2)
	case 3:
		body[5] = other(1)
	}
	return s101Frame(body)
}

func wholeFrame(f []byte) *s101RxFrame {
	items, _ := wireScan(f, false)
	if len(items) == 1 {
		return &items[0].s101RxFrame
	}
	return nil
}

// judge compares what was handed over with what the damaged stream really holds.
func judgeDamage(r *Run, sent, got [][]byte, stream []byte) {
	strict, _ := wireScan(stream, false)
	lenient, _ := wireScan(stream, true)
	must := assemble(strict)
	may := map[string]int{}
	for _, m := range assemble(lenient) {
		may[string(m)]++
	}
	times := map[string]int{}
	for _, m := range sent {
		times[string(m)]++
		if may[string(m)] < times[string(m)] {
			may[string(m)] = times[string(m)]
		}
	}
	seen := map[string]int{}
	for i, m := range got {
		seen[string(m)]++
		if may[string(m)] == 0 {
			for _, it := range lenient {
				r.S.Logf("on the wire: kind %d flags %#x %d bytes, damage before it: %v", it.kind, it.flags, len(it.payload), it.damaged)
			}
			r.Fail("foreign-message", "message %d handed over (%d bytes: % x...) was never sent and is no unbroken succession of intact packets", i, len(m), clip(m))
		}
		if seen[string(m)] > may[string(m)] {
			r.Fail("repeated-message", "a message of %d bytes was handed over %d times though its frames arrived %d times", len(m), seen[string(m)], may[string(m)])
		}
	}
	j := 0
	for _, m := range got {
		if j < len(must) && bytes.Equal(m, must[j]) {
			j++
		}
	}
	if j < len(must) {
		r.Fail("lost-message", "a message (%d bytes: % x...) whose %s was not handed over in order; %d of %d intact messages were", len(must[j]), clip(must[j]), "frames all arrived intact", j, len(must))
	}
}

func (r *Run) buildFrames(n int) (sent [][]byte, frames [][]byte) {
	for i := 0; i < n; i++ {
		m := []byte(fmt.Sprintf("<%d>", i))
		if n > 20 {
			m = append(m, r.bytesN(r.n(60))...)
		} else {
			m = append(m, r.payload()...)
		}
		if len(m) > 9000 {
			m = m[:9000]
		}
		sent = append(sent, m)
		max := []int{1024, 10, 40, 100, 512}[r.n(5)]
		if max == 10 && len(m) > 300 {
			max = 100
		}
		frames = append(frames, s101Split(m, max, r.n(10) == 9)...)
		if r.n(6) == 5 {
			frames = append(frames, s101KeepAliveReq())
		}
	}
	return
}

func mainC02(r *Run) {
	if r.n(4) == 3 {
		mainC02client(r)
		return
	}
	n := 2 + r.n(8)
	nd := 1 + r.n(4)
	if r.n(60) == 59 { // a long life of one decoder on a bad line
		n = 60 + r.n(500)
		nd = 20 + r.n(n/2)
		r.S.Count("long-stream")
	}
	sent, frames := r.buildFrames(n)
	stream := r.damage(frames, nd)
	// an undamaged tail proves that reception recovered
	tail := []byte("tail message")
	stream = append(stream, s101Ember(flFirst|flLast, tail)...)
	sent = append(sent, tail)
	a, b := simnet.Pair(r.netParams())
	all := append([]byte(nil), stream...)
	r.S.Spawn("sender", func() {
		a.Write(all)
		a.CloseWrite()
	})
	var h handed
	nerr, fed := 0, 0
	var errAt []int // offset of the first byte of the call during which each error was reported
	dec := socket.NewS101Decoder(
		func(p []byte) liberr.Error { return nil },
		func(p []byte) liberr.Error { return nil },
		func(p []byte) liberr.Error { h.add(p); return nil },
		func(e liberr.Error) { nerr++; errAt = append(errAt, fed) })
	if r.n(8) == 7 {
		dec.SetLogger(&checkLogger{})
	}
	buf := make([]byte, []int{65536, 1, 7, 512}[r.n(4)])
	for {
		k, err := b.Read(buf)
		if k > 0 {
			dec.DecodeBuffer(k, buf)
			fed += k
			for i := range buf[:k] {
				buf[i] = 0x5A
			}
		}
		if err != nil {
			break
		}
	}
	if i := h.intact(); i >= 0 {
		r.Fail("message-changed-later", "message %d changed after it was handed over", i)
	}
	judgeDamage(r, sent, h.got, stream)
	_, bad := wireScan(stream, false)
	if nerr < len(bad) {
		r.Fail("damage-not-reported", "%d frames failed the CRC but only %d errors were reported", len(bad), nerr)
	}
	if len(buf) == 1 { // every byte in a call of its own: each damaged frame must have its own report
		j := 0
		for _, f := range bad {
			for j < len(errAt) && errAt[j] < f[0] {
				j++
			}
			if j == len(errAt) || errAt[j] > f[1] {
				r.Fail("damage-not-reported", "the frame at bytes %d..%d failed its CRC but no error was reported while it was received", f[0], f[1])
			}
		}
	}
	r.note("%d messages, %d damages, %d handed over, %d crc errors", len(sent), nd, len(h.got), len(bad))
	r.nontrivial = true
}

// client mode: every message announces one top-level node of its own.
func mainC02client(r *Run) {
	c := r.newClient(9000, r.netParams())
	c.bootstrap(encMsg(nil, &Msg{}))
	n := 2 + r.n(8)
	var frames [][]byte
	byMsg := map[string]int32{}
	var sent [][]byte
	for i := 0; i < n; i++ {
		e := &Elem{Path: []int32{int32(100 + i)}, Kind: KNode, HasC: true, F: map[int]Val{0: {T: 's', S: fmt.Sprintf("n%d", i)}, 1: {T: 's', S: r.Str()}}}
		m := encMsg(r.form(), &Msg{Elems: []*Elem{e}})
		sent = append(sent, m)
		byMsg[string(m)] = e.Path[0]
		frames = append(frames, s101Split(m, []int{1024, 8, 30}[r.n(3)], false)...)
	}
	stream := r.damage(frames, 1+r.n(3))
	tail := encMsg(nil, &Msg{Elems: []*Elem{{Path: []int32{99}, Kind: KNode, HasC: true, F: map[int]Val{0: {T: 's', S: "tail"}}}}})
	byMsg[string(tail)] = 99
	sent = append(sent, tail)
	stream = append(stream, s101Ember(flFirst|flLast, tail)...)
	if err := c.peer().write(stream); err != nil {
		r.Fail("connection-dropped", "the client dropped the connection on a damaged stream: %v", err)
	}
	if !c.settle(3 * sec) {
		r.Fail("not-processed", "the client did not process its input within 3 s")
	}
	strict, _ := wireScan(stream, false)
	lenient, _ := wireScan(stream, true)
	t, err := observe(c.root)
	if err != nil {
		r.Fail("tree-corrupt", "%v", err)
	}
	must := map[int32]bool{}
	may := map[int32]bool{}
	for _, m := range assemble(strict) {
		if id, ok := byMsg[string(m)]; ok {
			must[id] = true
		}
	}
	odd := false
	for _, m := range assemble(lenient) {
		if _, ok := byMsg[string(m)]; !ok {
			odd = true // intact packets of different messages in succession: its effect is not predicted here
		}
	}
	for _, id := range byMsg {
		may[id] = true
	}
	for id := range must {
		if t.top(id) == nil && !odd {
			r.Fail("lost-message", "the message announcing node %d arrived intact but was not applied", id)
		}
	}
	for _, e := range t.Top {
		if !may[e.Num()] && !odd {
			r.Fail("foreign-message", "the tree holds node %d which no message announced", e.Num())
		}
		if e.Num() >= 99 && !odd {
			var w *Elem
			for m, id := range byMsg {
				if id == e.Num() {
					mm, _ := decMsg([]byte(m))
					w = mm.Elems[0]
				}
			}
			if w.own() != e.own() {
				r.Fail("foreign-message", "node differs from its announcement: %s instead of %s", e.own(), w.own())
			}
		}
	}
	if t.top(99) == nil {
		r.Fail("lost-message", "the undamaged last message was not applied")
	}
	r.nontrivial = true
}
