package main

import (
	"bytes"
	"encoding/json"

	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

func init() {
	suites["C19"] = suiteFrames
	suites["C20"] = suiteStreams
	suites["C21"] = suiteCorrupt
	suites["C22"] = suitePackets
}

// Out is a call of a handler of the decoder.
type Out struct {
	K string `json:"k"`
	D B      `json:"d"`
}

// ---- a sender of its own ----

func crcOf(b []byte) uint16 {
	c := uint16(0xffff)
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 == 1 {
				c = c>>1 ^ 0x8408
			} else {
				c >>= 1
			}
		}
	}
	return c
}

func framed(body []byte) []byte {
	c := ^crcOf(body)
	out := []byte{0xfe}
	for _, x := range append(append([]byte{}, body...), byte(c), byte(c>>8)) {
		if x >= 0xf8 {
			out = append(out, 0xfd, x^0x20)
		} else {
			out = append(out, x)
		}
	}
	return append(out, 0xff)
}

func packet(flags byte, payload []byte) []byte {
	return framed(append([]byte{0, 14, 0, 1, flags, 1, 2, 31, 2}, payload...))
}

func keepAlive(cmd byte) []byte { return framed([]byte{0, 14, cmd, 1}) }

// packets sends a message in n packets.
func packets(m []byte, n int) [][]byte {
	var out [][]byte
	version := []byte{31, 2}
	if rng.Intn(4) == 0 { // that of another provider
		version = [][]byte{{10, 2}, {40, 2}, {50, 2}, {5, 1}, {0, 3}}[rng.Intn(5)]
	}
	for i := 0; i < n; i++ {
		k := len(m)
		if i < n-1 {
			k = rng.Intn(len(m) + 1)
		}
		flags := byte(0)
		if i == 0 {
			flags |= 0x80
		}
		if i == n-1 {
			flags |= 0x40
		}
		if k == 0 && n > 1 && rng.Intn(2) == 0 {
			flags |= 0x20
		}
		out = append(out, framed(append(append([]byte{0, 14, 0, 1, flags, 1, 2}, version...), m[:k]...)))
		m = m[k:]
	}
	return out
}

func payload(n int) []byte {
	b := make([]byte, n)
	how := rng.Intn(4)
	for i := range b {
		switch how {
		case 0:
			b[i] = byte(rng.Intn(256))
		case 1:
			b[i] = byte(0xf0 + rng.Intn(16))
		case 2:
			b[i] = byte(rng.Intn(0xf8))
		case 3:
			b[i] = []byte{0, 0x0e, 0x60, 0x80, 0xc0, 0xfd, 0xfe, 0xff, 0xf8, 0xf7, 0xdd, 0xde}[rng.Intn(12)]
		}
	}
	return b
}

// ---- what the library writes ----

func encodeMessage(m []byte) [][]byte {
	var frames []B
	same := true
	in := append([]byte{}, m...)
	p := attempt("EncodeMessage", func() {
		l := socket.EncodeMessage(in)
		n := l.Size()
		for i := 0; i < n; i++ {
			f, err := l.GetBytesAt(i)
			if err != nil {
				same = false
			}
			frames = append(frames, f)
		}
		for i := n - 1; i >= 0; i-- {
			f, err := l.GetBytesAt(i)
			g, err2 := l.GetAt(i)
			if err != nil || err2 != nil || !bytes.Equal(f, frames[i]) || !bytes.Equal(g.Bytes(), frames[i]) {
				same = false
			}
			if len(f) > 0 {
				f[0]++ // what was returned belongs to the caller
				f, _ = l.GetBytesAt(i)
				same = same && bytes.Equal(f, frames[i])
			}
		}
		if _, err := l.GetBytesAt(n); err == nil {
			same = false
		}
		if _, err := l.GetAt(-1); err == nil {
			same = false
		}
		same = same && l.Size() == n && bytes.Equal(in, m)
	})
	if frames == nil {
		frames = []B{}
	}
	point()
	emit(E{"op": "enc", "data": B(m), "frames": frames, "same": same, "panic": p})
	out := [][]byte{}
	for _, f := range frames {
		out = append(out, f)
	}
	return out
}

func checksums(b []byte) {
	point()
	emit(E{"op": "crc", "in": B(b), "v": int(socket.CalculateCRC(bytes.NewReader(b)))})
	emit(E{"op": "valid", "in": B(b), "v": socket.ValidateFrame(bytes.NewReader(b))})
}

func suiteFrames() {
	cases(func(raw json.RawMessage) {
		var c struct {
			Sent []Out `json:"sent"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		if c.Sent[0].K == "msg" {
			encodeMessage(c.Sent[0].D)
		}
	})
	for i := 0; i < 40; i++ {
		encodeMessage(payload(i))
	}
	for _, around := range []int{512, 1024, 2048, 3072} {
		for d := -3; d <= 3; d++ {
			for _, fill := range []byte{0, 0xf7, 0xf8, 0xff} {
				for _, last := range []byte{0, 0xfe} {
					b := bytes.Repeat([]byte{fill}, around+d)
					b[len(b)-1] = last
					encodeMessage(b)
					b[len(b)-1], b[len(b)/2] = fill, 0xfd
					encodeMessage(b)
				}
			}
			encodeMessage(payload(around + d))
		}
	}
	for i := 0; i < pick(100, 3000); i++ {
		encodeMessage(payload(rng.Intn(200)))
		encodeMessage(payload(rng.Intn(5000)))
	}
	for _, n := range append(sizes(pick(2, 20), 20000, 60000), append(sizes(pick(2, 6), 65536, 140000), sizes(pick(1, 2), 1<<20, 1200000)...)...) {
		encodeMessage(payload(n))
	}
	// every checksum byte that has to be escaped
	for i := 0; i < pick(2000, 60000); i++ {
		m := payload(1 + rng.Intn(6))
		c := ^crcOf(append([]byte{0, 14, 0, 1, 0xc0, 1, 2, 31, 2}, m...))
		if byte(c) >= 0xf8 || byte(c>>8) >= 0xf8 {
			encodeMessage(m)
		}
	}
	for i := 0; i < 3; i++ {
		point()
		emit(E{"op": "ka", "cmd": 1, "out": B(socket.GetKeepaliveRequest().Bytes())})
		emit(E{"op": "ka", "cmd": 2, "out": B(socket.GetKeepAliveResponse().Bytes())})
	}
	for b := 0; b < 256; b++ {
		checksums([]byte{byte(b)})
		checksums([]byte{0, byte(b)})
	}
	checksums([]byte{})
	for i := 0; i < pick(300, 5000); i++ {
		b := payload(rng.Intn(60))
		checksums(b)
		c := ^crcOf(b)
		v := append(append([]byte{}, b...), byte(c), byte(c>>8))
		checksums(v)
		v[rng.Intn(len(v))] ^= 1 << uint(rng.Intn(8))
		checksums(v)
	}
}

// ---- what the library reads ----

type feeder struct {
	dec  *socket.S101Decoder
	outs []Out
	kept [][]byte
	all  []Out
	buf  []byte
}

func newFeeder() *feeder {
	f := &feeder{}
	reset(nil)
	keep := func(k string, d []byte) {
		pause()
		f.outs = append(f.outs, Out{k, append(B{}, d...)})
		f.kept = append(f.kept, d)
	}
	f.dec = socket.NewS101Decoder(
		func([]byte) errors.Error { keep("kreq", nil); return nil },
		func([]byte) errors.Error { keep("kres", nil); return nil },
		func(m []byte) errors.Error { keep("msg", m); return nil },
		func(err errors.Error) {
			if err == nil {
				keep("nil error", nil)
			}
			keep("err", nil)
		})
	withLogger(f.dec)
	if current != nil {
		withThis(f.dec, turning{})
	}
	return f
}

// feed has the decoder read b, in a buffer that may be larger and is used again.
func (f *feeder) feed(b []byte) {
	n := len(b) + rng.Intn(3)
	if cap(f.buf) < n {
		f.buf = make([]byte, n)
	}
	f.buf = f.buf[:n]
	copy(f.buf, b)
	for i := len(b); i < n; i++ {
		f.buf[i] = []byte{0xff, 0xfe, 0xfd, 1}[rng.Intn(4)]
	}
	f.outs = []Out{}
	p := attempt("DecodeBuffer", func() { f.dec.DecodeBuffer(len(b), f.buf) })
	emit(E{"op": "feed", "in": B(b), "outs": f.outs, "panic": p})
	f.all = append(f.all, f.outs...)
}

func (f *feeder) done(sent []Out) {
	kept := true
	for i, o := range f.all {
		if o.K == "msg" && !bytes.Equal(o.D, f.kept[i]) {
			kept = false
		}
	}
	if !kept {
		sent = append(sent, Out{"a message changed after it was delivered", B{}})
	}
	if sent == nil {
		sent = []Out{}
	}
	emit(E{"op": "done", "sent": sent})
}

// cutUp feeds the stream in pieces.
func (f *feeder) cutUp(b []byte, how int) {
	for len(b) > 0 {
		n := len(b)
		switch how {
		case 1:
			n = 1
		case 2:
			n = 1 + rng.Intn(8)
		case 3:
			n = 1 + rng.Intn(200)
		case 4:
			n = 2
		}
		if n > len(b) {
			n = len(b)
		}
		f.feed(b[:n])
		b = b[n:]
		if len(b) < 5000 && rng.Intn(10) == 0 {
			f.feed(nil) // a read of nothing
		}
	}
}

func streamCases(done bool) {
	cases(func(raw json.RawMessage) {
		var c struct {
			In   B     `json:"in"`
			Sent []Out `json:"sent"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		for _, how := range []int{0, 1 + rng.Intn(4)} {
			f := newFeeder()
			f.cutUp(c.In, how)
			if done {
				f.done(c.Sent)
			} else {
				f.feed(packet(0xc0, []byte{1, 2, 3})) // works on
			}
		}
	})
}

func streamScenario() {
	f := newFeeder()
	var stream []byte
	var sent []Out
	for n := 1 + rng.Intn(6); n > 0; n-- {
		switch rng.Intn(5) {
		case 0:
			stream = append(stream, socket.GetKeepaliveRequest().Bytes()...)
			sent = append(sent, Out{"kreq", B{}})
		case 1:
			stream = append(stream, socket.GetKeepAliveResponse().Bytes()...)
			sent = append(sent, Out{"kres", B{}})
		default:
			m := payload([]int{rng.Intn(10), rng.Intn(100), rng.Intn(3000)}[rng.Intn(3)])
			if rng.Intn(2) == 0 {
				l := socket.EncodeMessage(m)
				for j := 0; j < l.Size(); j++ {
					b, _ := l.GetBytesAt(j)
					stream = append(stream, b...)
					if j < l.Size()-1 && rng.Intn(2) == 0 {
						stream = append(stream, keepAlive(1)...)
						sent = append(sent, Out{"kreq", B{}})
					}
				}
			} else {
				ps := packets(m, 1+rng.Intn(4))
				for j, p := range ps {
					stream = append(stream, p...)
					if j < len(ps)-1 && rng.Intn(3) == 0 {
						stream = append(stream, keepAlive(2)...)
						sent = append(sent, Out{"kres", B{}})
					}
				}
			}
			sent = append(sent, Out{"msg", m})
		}
	}
	f.cutUp(stream, []int{0, 2, 3, 3, 1}[rng.Intn(5)])
	f.done(sent)
}

func suiteStreams() {
	streamCases(true)
	// every place to cut at
	for i := 0; i < pick(4, 40); i++ {
		var stream []byte
		var sent []Out
		add := func(o Out, b []byte) { stream, sent = append(stream, b...), append(sent, o) }
		m := payload(6)
		add(Out{"msg", m}, bytes.Join(packets(m, 3), nil))
		add(Out{"kreq", B{}}, keepAlive(1))
		m = payload(3)
		add(Out{"msg", m}, packet(0xc0, m))
		for c := 0; c <= len(stream); c++ {
			f := newFeeder()
			f.feed(stream[:c])
			f.feed(stream[c:])
			f.done(sent)
		}
	}
	for i := 0; i < pick(150, 3000); i++ {
		streamScenario()
	}
	// large
	for i, n := range append(sizes(pick(2, 20), 15000, 30000), append(sizes(pick(2, 8), 65536, 140000), sizes(pick(1, 2), 1<<20, 1200000)...)...) {
		f := newFeeder()
		m := payload(n)
		var stream []byte
		sent := []Out{}
		l := socket.EncodeMessage(m)
		for j := 0; j < l.Size(); j++ {
			if n < 1<<20 && rng.Intn(4) == 0 {
				stream = append(stream, keepAlive(1)...)
				sent = append(sent, Out{"kreq", B{}})
			}
			b, _ := l.GetBytesAt(j)
			stream = append(stream, b...)
		}
		if n < 1<<20 && i%2 == 1 {
			f.cutUp(stream, 3)
		} else {
			f.feed(stream)
		}
		f.done(append(sent, Out{"msg", m}))
	}
	// in one frame
	for _, n := range append(sizes(pick(8, 40), 1024, 10000), sizes(pick(1, 4), 65536, 100000)...) {
		f := newFeeder()
		m := payload(n)
		f.cutUp(packet(0xc0, m), []int{0, 3}[rng.Intn(2)])
		f.done([]Out{{"msg", m}})
	}
}

// sizes are n sizes between from and to.
func sizes(n, from, to int) (l []int) {
	for ; n > 0; n-- {
		l = append(l, from+rng.Intn(to-from))
	}
	return
}

func corrupt(b []byte) []byte {
	m := append([]byte{}, b...)
	for n := 1 + rng.Intn(2); n > 0 && len(m) > 1; n-- {
		i := rng.Intn(len(m))
		switch rng.Intn(7) {
		case 0:
			m[i] ^= 1 << uint(rng.Intn(8))
		case 1:
			m[i] = byte(rng.Intn(256))
		case 2:
			m = append(m[:i], m[i+1:]...)
		case 3:
			m = append(m[:i], append([]byte{byte(rng.Intn(256))}, m[i:]...)...)
		case 4:
			m = append(m[:i], append([]byte{[]byte{0xfd, 0xfe, 0xff}[rng.Intn(3)]}, m[i:]...)...)
		case 5:
			m = m[:i]
		case 6:
			j := i + rng.Intn(len(m)-i)
			m = append(m[:i], m[j:]...)
		}
	}
	return m
}

func oddFrame() []byte {
	b := []byte{0, 14, 0, 1, 0xc0, 1, 2, 31, 2}
	switch rng.Intn(9) {
	case 0:
		b[0] = byte(1 + rng.Intn(255))
	case 1:
		b[1] = byte(rng.Intn(14))
	case 2:
		b[2] = byte(3 + rng.Intn(250))
	case 3:
		b[3] = byte(rng.Intn(256))
	case 4:
		b[4] = byte(rng.Intn(256))
	case 5:
		b[5] = byte(rng.Intn(256))
	case 6:
		b[6] = byte(rng.Intn(256))
	case 7:
		b[7], b[8] = byte(rng.Intn(256)), byte(rng.Intn(256))
	case 8:
		b = b[:rng.Intn(9)]
		return framed(b)
	}
	return framed(append(b, payload(rng.Intn(5))...))
}

func corruptScenario() {
	f := newFeeder()
	var stream []byte
	for n := 1 + rng.Intn(5); n > 0; n-- {
		var b []byte
		switch rng.Intn(6) {
		case 0:
			b = keepAlive(byte(1 + rng.Intn(2)))
		case 1:
			b = bytes.Join(packets(payload(rng.Intn(20)), 2+rng.Intn(2)), nil)
		case 2:
			b = oddFrame()
		case 3:
			b = payload(rng.Intn(12))
			if rng.Intn(2) == 0 {
				b = []byte{}
			}
		default:
			b = packet(0xc0, payload(rng.Intn(30)))
			if rng.Intn(60) == 0 {
				b = packet(0xc0, payload(1000+rng.Intn(9000)))
			}
		}
		if rng.Intn(2) == 0 {
			b = corrupt(b)
		}
		stream = append(stream, b...)
	}
	f.cutUp(stream, rng.Intn(5))
	f.feed(packet(0xc0, []byte{1, 2, 3}))
}

func suiteCorrupt() {
	streamCases(false)
	for i := 0; i < pick(1500, 40000); i++ {
		corruptScenario()
	}
}

func packetScenario() {
	f := newFeeder()
	var stream []byte
	for n := 2 + rng.Intn(10); n > 0; n-- {
		p := payload(rng.Intn(6))
		if rng.Intn(60) == 0 {
			p = payload(2000)
		}
		var b []byte
		switch k := rng.Intn(16); {
		case k < 4:
			b = packet(0x80, p)
		case k < 8:
			b = packet(0, p)
		case k < 11:
			b = packet(0x40, p)
		case k < 12:
			b = packet(0xc0, p)
		case k < 13:
			b = packet([]byte{0x20, 0x60, 0xa0, 0xe0, 0x10, 0x8f, 0x41}[rng.Intn(7)], p)
		case k < 14:
			b = keepAlive(byte(1 + rng.Intn(2)))
		case k < 15:
			b = oddFrame()
		default:
			b = corrupt(packet([]byte{0, 0x40, 0x80}[rng.Intn(3)], p))
		}
		stream = append(stream, b...)
	}
	f.cutUp(stream, []int{0, 0, 3, 2}[rng.Intn(4)])
	f.feed(packet(0xc0, []byte{1, 2, 3}))
}

func suitePackets() {
	streamCases(false)
	for i := 0; i < pick(1500, 40000); i++ {
		packetScenario()
	}
}
