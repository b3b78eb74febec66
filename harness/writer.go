package main

import (
	"bytes"
	"encoding/json"
	"math"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
)

// C35: programs of starting and ending sequences, writing values, and taking
// the bytes.

func init() {
	suites["C35"] = suiteWriter
}

type wstep struct {
	Do  string `json:"do"`
	Tag int    `json:"tag"`
	K   string `json:"k"`
	V   []int  `json:"v"`
}

type writing struct {
	w         *asn1.ASNWriter
	depth     int
	kept, was [][]byte
}

func newWriting() *writing {
	reset(E{})
	return &writing{w: asn1.NewASNWriter()}
}

func (x *writing) do(s wstep) {
	if s.V == nil {
		s.V = []int{}
	}
	switch s.Do {
	case "start":
		var err errors.Error
		p := attempt("StartSequence", func() { err = x.w.StartSequence(uint8(s.Tag)) })
		x.depth++
		emit(E{"op": "start", "tag": s.Tag, "err": err != nil, "panic": p})
	case "end":
		var err errors.Error
		p := attempt("EndSequence", func() { err = x.w.EndSequence() })
		x.depth--
		emit(E{"op": "end", "err": err != nil, "panic": p})
	case "value":
		var err errors.Error
		p := attempt("write "+s.K, func() { err = put(x.w, s.K, s.V, uint8(s.Tag)) })
		emit(E{"op": "value", "k": s.K, "v": s.V, "tag": s.Tag, "err": err != nil, "panic": p})
	case "take":
		x.take(s.Tag)
	}
}

func (x *writing) take(n int) {
	got := make([]byte, n)
	var l, m, left int
	p := attempt("take", func() {
		l = x.w.Len()
		m, _ = x.w.Read(got)
		left = x.w.Len()
	})
	if p == "" && (m < 0 || m > n) {
		m = 0
	}
	same := true
	for i := range x.kept {
		same = same && bytes.Equal(x.kept[i], x.was[i])
	}
	got = got[:m]
	x.kept, x.was = append(x.kept, got), append(x.was, append([]byte{}, got...))
	if len(x.kept) > 4 {
		x.kept, x.was = x.kept[1:], x.was[1:]
	}
	emit(E{"op": "take", "n": n, "len": l, "got": B(got), "left": left, "err": false, "kept": same, "panic": p})
}

// all takes all there is, in pieces of some size.
func (x *writing) all(piece int) {
	for i := 0; i < 100000; i++ {
		l := 0
		attempt("Len", func() { l = x.w.Len() })
		n := piece
		if n == 0 || n > l && piece%2 == 0 {
			n = l
		}
		x.take(n)
		if n == l || l == 0 || x.w.Len() == 0 {
			return
		}
	}
}

// put writes a value and then spoils what it was given.
func put(w *asn1.ASNWriter, kind string, v []int, tag uint8) (err errors.Error) {
	num := func() (n int64) {
		for _, b := range v {
			n = n<<8 | int64(b)
		}
		return
	}
	switch kind {
	case "int":
		return w.WriteInt(int(num()))
	case "int64":
		return w.WriteInt64(num())
	case "inttag":
		return w.WriteIntTag(int(num()), tag)
	case "int64tag":
		return w.WriteInt64Tag(num(), tag)
	case "enum":
		return w.WriteEnum(int(num()))
	case "bool":
		return w.WriteBoolean(v[0] != 0)
	case "null":
		return w.WriteNull()
	case "real":
		return w.WriteReal(math.Float64frombits(uint64(num())))
	case "str":
		return w.WriteString(string(bytesOf(v)))
	case "oid":
		o := oidOf(v)
		err = w.WriteRelativeOID(o)
		for i := range o {
			o[i] = 77
		}
		return
	case "buf":
		b := bytesOf(v)
		err = w.WriteBuffer(b, tag)
		for i := range b {
			b[i] = 0xEE
		}
		return
	case "raw": // byte by byte: an octet string of up to 100 bytes
		b := bytesOf(v)
		if err = w.WriteByte(tag); err == nil {
			err = w.WriteByte(byte(len(b)))
		}
		for i := 0; i < len(b) && err == nil; i++ {
			err = w.WriteByte(b[i])
		}
		return
	}
	panic("kind " + kind)
}

func anyValue() wstep {
	s := wstep{Do: "value"}
	s.K = []string{"int", "int64", "inttag", "int64tag", "enum", "bool", "null", "real", "str", "str", "buf", "buf", "oid", "raw"}[rng.Intn(14)]
	size := func() int {
		switch rng.Intn(12) {
		case 0:
			return 120 + rng.Intn(20)
		case 1:
			return 250 + rng.Intn(12)
		case 2:
			return rng.Intn(3000)
		}
		return rng.Intn(10)
	}
	some := func(n int) []int {
		if rng.Intn(3) == 0 { // what looks like the end of a sequence, or the start of one
			v := make([]int, n)
			for i := range v {
				v[i] = []int{0, 0, 0, 0x30, 0x80, 0xa0}[rng.Intn(6)]
			}
			return v
		}
		return list(randBytes(n))
	}
	switch s.K {
	case "int", "inttag", "enum": // of 32 bits
		s.V = list(i8(int64(int32(rng.Uint32())) >> uint(rng.Intn(32))))
	case "int64", "int64tag":
		s.V = list(i8(int64(rng.Uint64()) >> uint(rng.Intn(64))))
	case "bool":
		s.V = []int{rng.Intn(2)}
	case "real":
		s.V = list(f8([]float64{0, 1, -0.5, 3.25, 1e100, -7e-50, 12345.6789}[rng.Intn(7)]))
	case "oid":
		s.V = []int{}
		for n := rng.Intn(6); n > 0; n-- {
			s.V = append(s.V, int(rng.Uint32()>>1>>uint(rng.Intn(31))))
		}
	case "raw":
		s.V = some(rng.Intn(100))
	default:
		s.V = some(size())
	}
	switch s.K {
	case "inttag", "int64tag", "buf", "raw":
		s.Tag = []int{2, 3, 4, 0x41, 0x83, 0xc0, 12, 30}[rng.Intn(8)]
	}
	return s
}

func suiteWriter() {
	cases(func(raw json.RawMessage) {
		var prog []wstep
		if err := json.Unmarshal(raw, &prog); err != nil {
			panic(err)
		}
		x := newWriting()
		for _, s := range prog {
			x.do(s)
		}
		x.all(0)
	})
	tags := []int{0x30, 0x31, 0x60, 0x61, 0x6b, 0x7e, 0xa0, 0xa1, 0xbe, 0xe0}
	for _, deep := range []int{126, 127, 128, 254, 255, 256, 257, 400} { // one below another
		x := newWriting()
		for n := 0; n < deep; n++ {
			x.do(wstep{Do: "start", Tag: tags[rng.Intn(len(tags))]})
			if rng.Intn(20) == 0 {
				x.do(anyValue())
			}
		}
		for n := 0; n < deep; n++ {
			x.do(wstep{Do: "end"})
			if rng.Intn(20) == 0 && n < deep-1 {
				x.do(anyValue())
			}
		}
		x.all(0)
	}
	for i := 0; i < pick(200, 2500); i++ {
		x := newWriting()
		takes, deep := rng.Intn(3), []int{3, 8, 60, 200}[rng.Intn(4)]
		for m := 1 + rng.Intn(3); m > 0; m-- {
			for n := rng.Intn(40 + deep); n > 0; n-- {
				switch k := rng.Intn(10); {
				case k < 3 && x.depth < deep || k < 7 && deep > 50 && x.depth < deep:
					x.do(wstep{Do: "start", Tag: tags[rng.Intn(len(tags))]})
				case k < 5 && x.depth > 0:
					x.do(wstep{Do: "end"})
				case k == 9 && takes == 2:
					x.do(wstep{Do: "take", Tag: rng.Intn(40)})
				default:
					x.do(anyValue())
				}
			}
			for x.depth > 0 {
				x.do(wstep{Do: "end"})
			}
			if m == 1 || takes > 0 {
				x.all([]int{0, 0, 1, 7, 64, 1024}[rng.Intn(6)])
			}
		}
	}
}
