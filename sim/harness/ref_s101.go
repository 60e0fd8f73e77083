package main

// Independent S101 implementation (written from the Ember+ specification, not from the library).

const (
	bof = 0xFE
	eof = 0xFF
	esc = 0xFD
)

func crcX25(p []byte) uint16 {
	crc := uint16(0xFFFF)
	for _, b := range p {
		crc ^= uint16(b)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0x8408
			} else {
				crc >>= 1
			}
		}
	}
	return ^crc
}

// s101Frame wraps the bytes between the delimiters (without CRC).
func s101Frame(body []byte) []byte {
	crc := crcX25(body)
	full := append(append([]byte(nil), body...), byte(crc), byte(crc>>8))
	out := make([]byte, 0, len(full)+len(full)/16+4)
	out = append(out, bof)
	for _, b := range full {
		if b >= 0xF8 {
			out = append(out, esc, b^0x20)
		} else {
			out = append(out, b)
		}
	}
	return append(out, eof)
}

func s101KeepAliveReq() []byte  { return s101Frame([]byte{0, 0x0E, 1, 1}) }
func s101KeepAliveResp() []byte { return s101Frame([]byte{0, 0x0E, 2, 1}) }

const (
	flFirst = 0x80
	flLast  = 0x40
	flEmpty = 0x20
)

func s101Ember(flags byte, payload []byte) []byte {
	body := append([]byte{0, 0x0E, 0, 1, flags, 1, 2, 0x1F, 0x02}, payload...)
	return s101Frame(body)
}

// s101Split cuts a message into packets of at most max payload bytes. emptyTail ends a multi-packet
// message with an empty last packet.
func s101Split(msg []byte, max int, emptyTail bool) [][]byte {
	if max <= 0 {
		max = 1024
	}
	if len(msg) <= max && !emptyTail {
		return [][]byte{s101Ember(flFirst|flLast, msg)}
	}
	var out [][]byte
	first := true
	for len(msg) > 0 {
		n := max
		if n > len(msg) {
			n = len(msg)
		}
		var fl byte
		if first {
			fl |= flFirst
		}
		if n == len(msg) && !emptyTail {
			fl |= flLast
		}
		out = append(out, s101Ember(fl, msg[:n]))
		msg = msg[n:]
		first = false
	}
	if emptyTail {
		fl := byte(flLast | flEmpty)
		if first {
			fl |= flFirst
		}
		out = append(out, s101Ember(fl, nil))
	}
	return out
}

type s101Kind int

const (
	fkEmber s101Kind = iota
	fkKeepReq
	fkKeepResp
	fkBad
)

type s101RxFrame struct {
	kind    s101Kind
	why     string
	flags   byte
	payload []byte
	raw     []byte // unescaped, without CRC
}

// s101Rx is a strict receiver. Whatever is not a perfectly formed frame is reported as fkBad.
type s101Rx struct {
	in     bool
	esc    bool
	buf    []byte
	frames []s101RxFrame
	// message assembly
	msgs    [][]byte
	partial []byte
	open    bool
	errs    []string
	onMsg   func([]byte)
	onKeep  func(kind s101Kind)
	pkts    int
}

func (r *s101Rx) bad(why string) {
	r.errs = append(r.errs, why)
	r.frames = append(r.frames, s101RxFrame{kind: fkBad, why: why})
}

func (r *s101Rx) feed(p []byte) {
	for _, b := range p {
		switch {
		case b == bof:
			if r.in && (len(r.buf) > 0 || r.esc) {
				r.bad("frame not terminated before the next start byte")
			}
			r.in, r.esc, r.buf = true, false, nil
		case !r.in:
			r.bad("byte outside of a frame")
		case b == eof:
			if r.esc {
				r.bad("escape byte before the end of a frame")
			} else {
				r.frame(r.buf)
			}
			r.in, r.esc, r.buf = false, false, nil
		case r.esc:
			r.buf = append(r.buf, b^0x20)
			r.esc = false
		case b == esc:
			r.esc = true
		case b >= 0xF8:
			r.bad("unescaped reserved byte")
			r.buf = append(r.buf, b)
		default:
			r.buf = append(r.buf, b)
		}
	}
}

func parseFrame(f []byte) s101RxFrame {
	bad := func(why string) s101RxFrame { return s101RxFrame{kind: fkBad, why: why} }
	if len(f) < 6 {
		return bad("short frame")
	}
	body := f[:len(f)-2]
	crc := crcX25(body)
	if byte(crc) != f[len(f)-2] || byte(crc>>8) != f[len(f)-1] {
		return bad("crc mismatch")
	}
	if body[0] != 0 || body[1] != 0x0E {
		return bad("slot or message type")
	}
	switch body[2] {
	case 1:
		if len(body) != 4 {
			return bad("keep-alive request with extra bytes")
		}
		return s101RxFrame{kind: fkKeepReq, raw: body}
	case 2:
		if len(body) != 4 {
			return bad("keep-alive response with extra bytes")
		}
		return s101RxFrame{kind: fkKeepResp, raw: body}
	case 0:
		if len(body) < 9 || body[3] != 1 || body[5] != 1 || body[6] != 2 {
			return bad("ember packet header")
		}
		return s101RxFrame{kind: fkEmber, flags: body[4], payload: body[9:], raw: body}
	}
	return bad("unknown command")
}

func (r *s101Rx) frame(f []byte) {
	fr := parseFrame(f)
	if fr.kind == fkBad {
		r.bad(fr.why)
		return
	}
	r.frames = append(r.frames, fr)
	r.pkts++
	if fr.kind != fkEmber {
		if r.onKeep != nil {
			r.onKeep(fr.kind)
		}
		return
	}
	if fr.flags&^(flFirst|flLast|flEmpty) != 0 {
		r.errs = append(r.errs, "unknown packet flags")
	}
	if fr.flags&flFirst != 0 {
		if r.open {
			r.errs = append(r.errs, "first packet inside a message")
		}
		r.partial, r.open = nil, true
	} else if !r.open {
		r.errs = append(r.errs, "continuation packet without a first packet")
		return
	}
	if fr.flags&flEmpty == 0 {
		r.partial = append(r.partial, fr.payload...)
	} else if len(fr.payload) > 0 {
		r.errs = append(r.errs, "payload in an empty packet")
	}
	if fr.flags&flLast != 0 {
		m := r.partial
		r.partial, r.open = nil, false
		r.msgs = append(r.msgs, m)
		if r.onMsg != nil {
			r.onMsg(m)
		}
	}
}

type scanItem struct {
	s101RxFrame
	at      int  // offset of its end delimiter
	damaged bool // damage (bytes outside of valid frames) directly before this item
}

func crcPasses(f []byte) bool {
	if len(f) < 2 {
		return false
	}
	crc := crcX25(f[:len(f)-2])
	return byte(crc) == f[len(f)-2] && byte(crc>>8) == f[len(f)-1]
}

// wireScan is the ground truth for damaged streams: it lists everything in the stream that passes
// as a frame (delimiters, escapes, CRC), in order, noting damage in between. When lenient, a body
// without its start byte or with an escape byte at its end counts as a frame too.
//
// crcBad lists the frames whose CRC is wrong, by the offsets of their delimiters.
func wireScan(p []byte, lenient bool) (items []scanItem, crcBad [][2]int) {
	start := 0
	var buf []byte
	in, es, dirty := false, false, false
	for at, b := range p {
		switch {
		case b == bof:
			if len(buf) > 0 || es {
				dirty = true
			}
			start = at
			in, es, buf = true, false, nil
		case b == eof:
			f := s101RxFrame{kind: fkBad}
			if !es && in || lenient {
				f = parseFrame(buf)
			}
			if lenient && f.kind == fkBad && crcPasses(buf) {
				// passed the CRC (perhaps by chance), so it need not be seen as damage
			} else if f.kind != fkBad {
				items = append(items, scanItem{f, at, dirty})
				dirty = false
			} else {
				dirty = true
				if in && !es && len(buf) > 0 && !crcPasses(buf) {
					crcBad = append(crcBad, [2]int{start, at})
				}
			}
			in, es, buf = false, false, nil
		case es:
			buf = append(buf, b^0x20)
			es = false
		case b == esc:
			es = true
		default:
			buf = append(buf, b)
		}
	}
	return items, crcBad
}

// assemble joins the packets of a scan into messages; damage ends the open message.
func assemble(items []scanItem) [][]byte {
	var out [][]byte
	var cur []byte
	open := false
	for _, it := range items {
		if it.damaged {
			open = false
		}
		if it.kind != fkEmber {
			continue
		}
		if it.flags&flFirst != 0 {
			cur, open = nil, true
		}
		if !open {
			continue
		}
		if it.flags&flEmpty == 0 {
			cur = append(cur, it.payload...)
		}
		if it.flags&flLast != 0 {
			out = append(out, cur)
			cur, open = nil, false
		}
	}
	return out
}
