package main

import (
	"encoding/json"
	"math"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
)

func init() {
	suites["C05"] = suiteReaders
}

type call struct {
	Call string `json:"call"`
	R    int    `json:"r"`
	Arg  int    `json:"arg"`
}

type program struct {
	readers []*asn1.ASNReader
	dead    []bool
}

func newProgram(data []byte) *program {
	reset(E{"data": B(data)})
	return &program{readers: []*asn1.ASNReader{asn1.NewASNReader(data)}, dead: []bool{false}}
}

func (p *program) id(r *asn1.ASNReader) int {
	for i, x := range p.readers {
		if x == r {
			return i + 1
		}
	}
	p.readers = append(p.readers, r)
	p.dead = append(p.dead, false)
	return len(p.readers)
}

// do makes one call and logs it; it returns whether it succeeded.
func (p *program) do(c call) bool {
	if c.R > len(p.readers) || p.dead[c.R-1] {
		return false
	}
	r := p.readers[c.R-1]
	var err errors.Error
	var val interface{} = []int{}
	pan := attempt("reader "+c.Call, func() {
		switch c.Call {
		case "start":
			var n int
			var sub *asn1.ASNReader
			n, sub, err = r.ReadSequenceStart(uint8(c.Arg))
			if err == nil && sub != nil {
				val = []int{n, p.id(sub)}
			}
		case "part":
			var sub *asn1.ASNReader
			sub, err = r.NewReader(c.Arg)
			if err == nil && sub != nil {
				val = []int{p.id(sub)}
			}
		case "check":
			var end bool
			end, err = r.CheckSequenceEnd()
			val = []int{0}
			if end {
				val = []int{1}
			}
		case "end":
			err = r.ReadSequenceEnd()
		case "peek":
			var b byte
			b, err = r.Peek()
			val = []int{int(b)}
		case "byte":
			var b byte
			b, err = r.ReadByte()
			val = []int{int(b)}
		case "int":
			var x int
			x, err = r.ReadInt()
			val = i8(int64(x))
		case "int64":
			var x int64
			x, err = r.ReadInt64()
			val = i8(x)
		case "bool":
			var x bool
			x, err = r.ReadBoolean()
			val = []int{0}
			if x {
				val = []int{1}
			}
		case "real":
			var x float64
			x, err = r.ReadReal()
			if x == 0 {
				x = 0
			}
			val = f8(x)
			if math.IsNaN(x) {
				val = f8(0)
			}
		case "str":
			var x string
			x, err = r.ReadString()
			val = B(x)
		case "bits":
			var x []byte
			x, err = r.ReadBitString()
			val = B(x)
		case "oid":
			var x asn1.RelativeOID
			x, err = r.ReadOID(uint8(c.Arg))
			val = ints(x)
		default:
			panic("call " + c.Call)
		}
	})
	what := "ok"
	if err != nil {
		what, val = "err", []int{}
	}
	seen := []E{}
	for _, x := range p.readers {
		seen = append(seen, E{"len": x.Len(), "off": x.Offset(), "top": x.TopOffset()})
	}
	emit(E{"op": "call", "call": c.Call, "r": c.R, "arg": c.Arg, "what": what, "val": val, "rd": seen, "panic": pan})
	if what == "err" && c.Call != "peek" && c.Call != "end" && c.Call != "byte" {
		p.dead[c.R-1] = true // nothing is said about its position
	}
	return what == "ok" && pan == ""
}

// randSequence makes a nesting of sequences around primitive values.
func randSequence(depth int) []byte {
	if depth == 0 || rng.Intn(4) == 0 {
		return randPrimitive()
	}
	var c []byte
	for n := rng.Intn(4); n > 0; n-- {
		c = append(c, randSequence(depth-1)...)
	}
	tag := []uint8{48, 49, 96, 107, 160, 161, 162, 99}[rng.Intn(8)]
	if rng.Intn(2) == 0 {
		return append(append([]byte{tag, 0x80}, c...), 0, 0)
	}
	return item(tag, fitForm(len(c)), c)
}

func randPrimitive() []byte {
	w := asn1.NewASNWriter()
	switch rng.Intn(7) {
	case 0:
		w.WriteInt(int(rng.Int31() >> uint(rng.Intn(31))))
	case 1:
		w.WriteInt64(int64(rng.Uint64()) >> uint(rng.Intn(64)))
	case 2:
		w.WriteBoolean(rng.Intn(2) == 0)
	case 3:
		w.WriteString(string(randBytes(rng.Intn(12))))
	case 4:
		w.WriteBuffer(make([]byte, rng.Intn(6)), 3)
	case 5:
		w.WriteRelativeOID(asn1.RelativeOID{int32(rng.Intn(300)), 127, int32(rng.Intn(9))}[:rng.Intn(4)])
	case 6:
		w.WriteReal(float64(rng.Intn(1000)) / 8)
	}
	return drain(w)
}

var tagKind = map[uint8]string{1: "bool", 3: "bits", 9: "real", 12: "str", 13: "oid"}

// explore makes random calls, mostly sensible ones, on all of the readers.
func explore(data []byte, n int) {
	p := newProgram(data)
	for i := 0; i < n; i++ {
		id := len(p.readers)
		if rng.Intn(3) == 0 {
			id = 1 + rng.Intn(len(p.readers))
		}
		for id > 1 && (p.dead[id-1] || p.readers[id-1].Len() == 0 && rng.Intn(3) > 0) {
			id--
		}
		if p.dead[id-1] {
			continue
		}
		r := p.readers[id-1]
		c := call{Call: "peek", R: id}
		var b byte
		if r.Len() > 0 {
			b, _ = r.Peek()
		}
		switch k := rng.Intn(20); {
		case k == 0:
			c.Call = "check"
		case k == 1:
			c.Call = "end"
		case k == 2:
			c.Call = "peek"
		case k == 3 && rng.Intn(4) == 0:
			c.Call = "byte"
		case k == 4 && rng.Intn(3) == 0:
			c.Call, c.Arg = "part", rng.Intn(r.Len()+1)
		case k == 5 && rng.Intn(4) == 0:
			c.Call, c.Arg = "start", rng.Intn(256)
		case k == 6 && rng.Intn(4) == 0:
			c.Call = []string{"int", "int64", "bool", "str", "bits", "real"}[rng.Intn(6)]
		case b == 0:
			c.Call = []string{"check", "end"}[rng.Intn(2)]
		case b&0x20 != 0:
			c.Call, c.Arg = "start", int(b)
		case b == 2:
			c.Call = []string{"int", "int64"}[rng.Intn(2)]
		case tagKind[b] != "":
			c.Call, c.Arg = tagKind[b], int(b)
		default:
			c.Call = "check"
		}
		p.do(c)
	}
}

func suiteReaders() {
	cases(func(raw json.RawMessage) {
		var c struct {
			Data  B      `json:"data"`
			Calls []call `json:"calls"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		p := newProgram(c.Data)
		for _, x := range c.Calls {
			p.do(x)
		}
	})
	for i := pick(1200, 20000); i > 0; i-- {
		var data []byte
		for n := 1 + rng.Intn(3); n > 0; n-- {
			data = append(data, randSequence(1+rng.Intn(5))...)
		}
		if rng.Intn(5) == 0 && len(data) > 0 {
			data[rng.Intn(len(data))] = byte(rng.Intn(256))
		}
		if rng.Intn(4) == 0 {
			// a zero that is not an end, in front of anything
			x := []byte{49, 128, 0, byte(1 + rng.Intn(255))}
			if rng.Intn(2) == 0 {
				x = x[2:]
			}
			data = append(x, data...)
		}
		if len(data) > 400 {
			data = data[:400]
		}
		explore(data, 10+rng.Intn(60))
	}
}
