package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

func init() {
	suites["C08"] = suiteHostile
	suites["C08m"] = suiteMerge
	suites["C08r"] = suiteHostileReaders
}

var whats = []string{"msg", "el", "node", "param", "matrix", "func", "cmd", "label", "conn", "sig", "tuple", "inv"}

// decodeOnly decodes and looks no further.
func decodeOnly(what string, in []byte) errors.Error {
	r := asn1.NewASNReader(in)
	switch what {
	case "msg":
		return embertree.NewTree().Decode(r)
	case "el":
		_, err := embertree.DecodeElement(r)
		return err
	case "label":
		_, err := embertree.DecodeLabel(r)
		return err
	case "conn":
		return (&embertree.Connection{}).Decode(r)
	case "sig":
		_, err := embertree.DecodeSignal(r)
		return err
	case "tuple":
		return (&embertree.TupleDescription{}).Decode(r)
	case "inv":
		return embertree.NewInvocation(0, nil).Decode(r)
	case "frames":
		none := func([]byte) errors.Error { return nil }
		d := socket.NewS101Decoder(none, none, none, func(errors.Error) {})
		d.DecodeBuffer(len(in), in)
		return nil
	case "bool":
		_, err := r.ReadBoolean()
		return err
	case "int":
		_, err := r.ReadInt()
		return err
	case "int64":
		_, err := r.ReadInt64()
		return err
	case "real":
		_, err := r.ReadReal()
		return err
	case "str":
		_, err := r.ReadString()
		return err
	case "bits":
		_, err := r.ReadBitString()
		return err
	case "oid":
		_, err := r.ReadOID(13)
		return err
	case "seq":
		_, _, err := r.ReadSequenceStart(in[0])
		return err
	}
	return kindContents[what]().Decode(r)
}

// hostile decodes and measures what that takes; the bytes are not logged.
func hostile(what string, shape string, in []byte) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var err errors.Error
	p := attempt(fmt.Sprintf("decoding %s: %s of %d bytes", what, shape, len(in)), func() { err = decodeOnly(what, in) })
	runtime.ReadMemStats(&b)
	point()
	emit(E{"op": "hostile", "what": what, "shape": shape, "n": len(in), "kb": int((b.TotalAlloc - a.TotalAlloc) >> 10), "err": err != nil, "panic": p})
}

// nest is depth elements below each other. The innermost is followed by end.
func nest(depth int, indef bool, tag byte, end []byte) []byte {
	path := []byte{0xa0, 3, 2, 1, 1}
	if embertree.IsQualifiedTag(tag) {
		path = []byte{0xa0, 3, 13, 1, 1}
	}
	if indef {
		var b []byte
		for i := 0; i < depth; i++ {
			b = append(append(append(b, tag, 0x80), path...), 0xa2, 0x80, 0x64, 0x80, 0xa0, 0x80)
		}
		return append(b, end...)
	}
	// from the inside, backwards
	rev := []byte{}
	for i := len(end) - 1; i >= 0; i-- {
		rev = append(rev, end[i])
	}
	put := func(t byte) {
		l := lenOctets(len(rev), 0)
		for i := len(l) - 1; i >= 0; i-- {
			rev = append(rev, l[i])
		}
		rev = append(rev, t)
	}
	for i := 0; i < depth; i++ {
		put(0xa0)
		put(0x64)
		put(0xa2)
		for j := len(path) - 1; j >= 0; j-- {
			rev = append(rev, path[j])
		}
		put(tag)
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return rev
}

func suiteHostile() {
	cases(func(raw json.RawMessage) {
		var c struct {
			Op   string `json:"op"`
			What string `json:"what"`
			In   B      `json:"in"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		dec(c.What, c.In)
	})
	big := pick(1<<20, 16<<20)
	leaf := []byte{0x63, 5, 0xa0, 3, 2, 1, 1}
	for _, n := range []int{100, 3000, big / 64, big / 16} {
		for _, tag := range []byte{99, 106, 97, 109, 115} {
			for _, indef := range []bool{false, true} {
				for k, end := range [][]byte{leaf, {}, {0x7f}, {0x63, 0x84, 0xff, 0xff, 0xff, 0xff}} {
					b := nest(n, indef, tag, end)
					shape := fmt.Sprintf("%d elements with tag %d nested, indefinite %v, end %d", n, tag, indef, k)
					hostile("el", shape, b)
					if tag == 99 {
						hostile("msg", shape, append([]byte{0x60, 0x80, 0x6b, 0x80, 0xa0, 0x80}, b...))
					}
				}
			}
		}
	}
	hostile("el", "a million elements nested", nest(1<<20, true, 99, nil))
	// one byte or a few, repeated
	for _, pat := range [][]byte{{0}, {0x30, 0x80}, {0x80}, {0xff}, {0x60, 0x80}, {0xa0, 0x80}, {0x63, 0x80}, {0xa2, 0x80, 0x64, 0x80}, {2, 1, 5}, {0xa0, 3, 2, 1, 1},
		{0x6b, 0x80}, {0x31, 0x80}, {0xa0, 0}, {0x63, 0}, {0x6e, 0}, {0xa0, 5, 0x6e, 3, 0xa0, 1, 0}, {0x0d, 0x80, 1}, {0x6c, 0x80, 0xa0, 0x80}, {0xa9, 0x80}} {
		rep := bytes.Repeat(pat, big/len(pat))
		for _, what := range append([]string{"frames", "bool", "int", "int64", "real", "str", "bits", "oid", "seq"}, whats...) {
			hostile(what, fmt.Sprintf("repeated %v", pat), rep)
			hostile(what, fmt.Sprintf("repeated %v", pat), rep[:30])
		}
	}
	// a start that announces more than there is, or goes on for long
	starts := map[string][][]byte{
		"str": {{12}}, "bits": {{3}}, "oid": {{13}}, "real": {{9}}, "int": {{2}}, "int64": {{2}}, "bool": {{1}}, "seq": {{0x30}, {0x60}},
		"msg": {{0x60}, {0x60, 0x80, 0x6b}, {0x60, 0x80, 0x6b, 0x80, 0xa0}, {0x60, 0x80, 0x6b, 0x80, 0xa0, 0x80, 0x63}},
		"el": {{0x63}, {0x63, 0x80, 0xa0}, {0x63, 0x80, 0xa0, 3, 2, 1, 1, 0xa1}, {0x63, 0x80, 0xa0, 3, 2, 1, 1, 0xa2}, {0x63, 0x80, 0xa0, 3, 2, 1, 1, 0xa2, 0x80, 0x64},
			{0x6d, 0x80, 0xa0, 3, 2, 1, 1, 0xa3}, {0x6d, 0x80, 0xa0, 3, 2, 1, 1, 0xa3, 0x80, 0x30}, {0x6d, 0x80, 0xa0, 3, 2, 1, 1, 0xa5, 0x80, 0x30}, {0x6a, 0x80, 0xa0, 0x80, 13}},
		"node": {{0x31}, {0x31, 0x80, 0xa0}, {0x31, 0x80, 0xa0, 0x80, 12}}, "param": {{0x31}, {0x31, 0x80, 0xa2}, {0x31, 0x80, 0xa2, 0x80, 3}},
		"matrix": {{0x31}, {0x31, 0x80, 0xaa}, {0x31, 0x80, 0xaa, 0x80, 0x30}, {0x31, 0x80, 0xa8, 0x80, 13}},
		"func":   {{0x31}, {0x31, 0x80, 0xa2}, {0x31, 0x80, 0xa2, 0x80, 0x30}, {0x31, 0x80, 0xa3, 0x80, 0x30, 0x80, 0xa0}},
		"cmd":    {{0xa1}, {2}}, "label": {{0x72}, {0x72, 0x80, 0xa0, 0x80, 13}, {0x72, 0x80, 0xa1, 0x80, 12}}, "conn": {{0x70}, {0x70, 0x80, 0xa1, 0x80, 13}},
		"sig": {{0x6e}, {0x6f}}, "tuple": {{0x75}, {0x75, 0x80, 0xa1, 0x80, 12}}, "inv": {{0x76}, {0x76, 0x80, 0xa1}, {0x76, 0x80, 0xa1, 0x80, 0x30}},
	}
	lens := [][]byte{{0x84, 0xff, 0xff, 0xff, 0xff}, {0x84, 0x7f, 0xff, 0xff, 0xff}, {0x84, 0x80, 0, 0, 0}, {0x84, 0, 0xff, 0xff, 0xff}, {0x83, 0xff, 0xff, 0xff},
		{0x85, 1, 0, 0, 0, 0}, {0x88, 1, 0, 0, 0, 0, 0, 0, 0}, {0x88, 0x7f, 255, 255, 255, 255, 255, 255, 255}, {0x88, 255, 255, 255, 255, 255, 255, 255, 255}, {0xff}, {0x80}, {0x84}, {0x82, 1}}
	for _, what := range append([]string{"str", "bits", "oid", "real", "int", "int64", "bool", "seq"}, whats...) {
		for _, s := range starts[what] {
			for _, l := range lens {
				for _, body := range [][]byte{{}, {0}, bytes.Repeat([]byte{1}, 40), bytes.Repeat([]byte{0}, 1000), bytes.Repeat([]byte{0x81}, 100000)} {
					hostile(what, fmt.Sprintf("start %v length %v and %d bytes", s, l, len(body)), append(append(append([]byte{}, s...), l...), body...))
				}
			}
		}
	}
	// well-formed, then changed at some places
	for i := 0; i < pick(1500, 30000); i++ {
		g := defaultGen()
		g.strMax, g.maxKids, g.fill = 6, 3, 1+rng.Intn(4)
		e := []*enc{plainEnc(), indefEnc(), mixedEnc(true)}[rng.Intn(3)]
		what := whats[rng.Intn(len(whats))]
		if i%3 == 0 {
			what = whats[rng.Intn(2)]
		}
		var b []byte
		switch what {
		case "msg":
			b = e.msg(g.msg(rng.Intn(3), rng.Intn(4)))
		case "el":
			b = e.elem(g.elem(rng.Intn(3), true, roid(1, 4)...))
		case "label":
			b = e.label(roid(0, 4), g.rstr())
		case "conn":
			b = e.conn(Conn{T: rint32(), S: roid(0, 5), O: rng.Intn(3), D: rng.Intn(4)})
		case "sig":
			b = e.signal(app(14+rng.Intn(2)), rint32())
		case "tuple":
			b = e.tuple(rng.Intn(8), g.rstr())
		case "inv":
			b = e.invocation(rint32(), rng.Intn(4) > 0, g.args(rng.Intn(4)), rng.Intn(4) > 0)
		default:
			b = e.contents(what, g.fields(what))
		}
		for j := 0; j < 4; j++ {
			m := mutate(b)
			if len(m) < 600 {
				dec(what, m)
			}
			hostile("frames", "changed", mutate(frameOf(m)))
		}
	}
	for i := 0; i < pick(3000, 100000); i++ {
		dec(whats[rng.Intn(len(whats))], randBytes(rng.Intn(40)))
	}
}

func frameOf(m []byte) []byte {
	var out []byte
	l := socket.EncodeMessage(m)
	for i := 0; i < l.Size(); i++ {
		f, _ := l.GetBytesAt(i)
		out = append(out, f...)
	}
	return out
}

var telling = []byte{0, 1, 2, 3, 9, 12, 13, 0x30, 0x31, 0x60, 0x6b, 0x63, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x85, 0xa0, 0xa1, 0xa2, 0xa5, 0xfd, 0xfe, 0xff}

func mutate(b []byte) []byte {
	m := append([]byte{}, b...)
	for n := 1 + rng.Intn(3); n > 0 && len(m) > 0; n-- {
		i := rng.Intn(len(m))
		switch rng.Intn(6) {
		case 0:
			m[i] = telling[rng.Intn(len(telling))]
		case 1:
			m[i] = byte(rng.Intn(256))
		case 2:
			m[i] += byte(rng.Intn(5)) - 2
		case 3:
			m = append(m[:i], m[i+1:]...)
		case 4:
			m = append(m[:i], append([]byte{telling[rng.Intn(len(telling))]}, m[i:]...)...)
		case 5:
			k := i + rng.Intn(len(m)-i)
			m = append(m, m[i:k]...)
		}
	}
	return m
}

// suiteHostileReaders calls anything on any reader of any data.
func suiteHostileReaders() {
	for i := pick(700, 20000); i > 0; i-- {
		var data []byte
		switch rng.Intn(3) {
		case 0:
			data = randBytes(rng.Intn(40))
		case 1:
			for j := rng.Intn(40); j > 0; j-- {
				data = append(data, telling[rng.Intn(len(telling))])
			}
		case 2:
			data = mutate(randSequence(1 + rng.Intn(4)))
		}
		if len(data) > 300 {
			data = data[:300]
		}
		p := newProgram(data)
		names := []string{"start", "part", "check", "end", "peek", "byte", "int", "int64", "bool", "real", "str", "bits", "oid"}
		for n := 3 + rng.Intn(20); n > 0; n-- {
			id := 1 + rng.Intn(len(p.readers))
			c := call{Call: names[rng.Intn(len(names))], R: id}
			r := p.readers[id-1]
			var b byte
			if r.Len() > 0 {
				b, _ = r.Peek()
			}
			switch c.Call {
			case "start", "oid":
				c.Arg = int(b)
			case "part":
				c.Arg = []int{0, 1, r.Len(), r.Len() + 1, -1, -5, 1 << 31, 1 << 40, -1 << 62}[rng.Intn(9)]
			}
			if c.Call == "part" && (c.Arg < 0 || c.Arg > 1<<20) {
				// outside of what Reader describes
				pan := attempt(fmt.Sprint("part of length ", c.Arg), func() { r.NewReader(c.Arg) })
				emit(E{"op": "call", "call": "odd", "r": id, "arg": 0, "what": "err", "val": []int{}, "rd": []E{}, "panic": pan})
				break
			}
			p.do(c)
		}
	}
}
