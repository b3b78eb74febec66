package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"math"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
)

func init() {
	suites["C01"] = suiteInts
	suites["C02"] = suiteReals
	suites["C03"] = suiteStrings
	suites["C04"] = suiteOIDs
}

func i8(v int64) B {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, uint64(v))
	return b
}

func f8(v float64) B {
	return i8(int64(math.Float64bits(v)))
}

func oidOf(l []int) asn1.RelativeOID {
	oid := make(asn1.RelativeOID, len(l))
	for i, x := range l {
		oid[i] = int32(x)
	}
	return oid
}

func ints(oid []int32) []int {
	l := make([]int, len(oid))
	for i, x := range oid {
		l[i] = int(x)
	}
	return l
}

func drain(w *asn1.ASNWriter) []byte {
	out := make([]byte, w.Len())
	if len(out) > 0 {
		n, _ := w.Read(out)
		out = out[:n]
	}
	return out
}

func bytesOf(l []int) []byte {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x)
	}
	return b
}

// keeper holds values that were returned, or given as an argument, and what
// they were then: nothing that follows may change them.
type keeper struct {
	bytes, bytesWas [][]byte
	oids, oidsWas   []asn1.RelativeOID
}

var held keeper

func (k *keeper) keep(b []byte) {
	k.bytes, k.bytesWas = append(k.bytes, b), append(k.bytesWas, append([]byte{}, b...))
	if len(k.bytes) > 8 {
		k.bytes, k.bytesWas = k.bytes[1:], k.bytesWas[1:]
	}
}

func (k *keeper) keepOID(o asn1.RelativeOID) {
	k.oids, k.oidsWas = append(k.oids, o), append(k.oidsWas, append(asn1.RelativeOID{}, o...))
	if len(k.oids) > 8 {
		k.oids, k.oidsWas = k.oids[1:], k.oidsWas[1:]
	}
}

// same tells whether all of them are still what they were.
func (k *keeper) same() bool {
	for i, b := range k.bytes {
		if !bytes.Equal(b, k.bytesWas[i]) {
			return false
		}
	}
	for i, o := range k.oids {
		for j, x := range o {
			if x != k.oidsWas[i][j] {
				return false
			}
		}
	}
	return true
}

// write writes one value (v as in the trace) with w and logs it.
func write(w *asn1.ASNWriter, kind string, v []int, tag uint8) []byte {
	var err errors.Error
	num := func() int64 { return int64(binary.BigEndian.Uint64(bytesOf(v))) }
	p := attempt("write "+kind, func() {
		switch kind {
		case "int":
			err = w.WriteInt(int(num()))
		case "int64":
			err = w.WriteInt64(num())
		case "inttag":
			err = w.WriteIntTag(int(num()), tag)
		case "int64tag":
			err = w.WriteInt64Tag(num(), tag)
		case "enum":
			err = w.WriteEnum(int(num()))
		case "bool":
			err = w.WriteBoolean(v[0] != 0)
		case "null":
			err = w.WriteNull()
		case "real":
			err = w.WriteReal(math.Float64frombits(uint64(num())))
		case "str":
			err = w.WriteString(string(bytesOf(v)))
		case "buf":
			b := bytesOf(v)
			held.keep(b)
			err = w.WriteBuffer(b, tag)
		case "oid":
			o := oidOf(v)
			held.keepOID(o)
			err = w.WriteRelativeOID(o)
		default:
			panic("kind " + kind)
		}
	})
	if v == nil {
		v = []int{}
	}
	out := drain(w)
	point()
	emit(E{"op": "w", "k": kind, "v": v, "tag": int(tag), "out": B(out), "err": err != nil, "panic": p, "kept": held.same()})
	return out
}

func list(b []byte) []int {
	l := make([]int, len(b))
	for i, x := range b {
		l[i] = int(x)
	}
	return l
}

// read reads one value from r, of which in are the bytes left, and logs it.
func read(r *asn1.ASNReader, kind string, tag uint8, in []byte) bool {
	var err errors.Error
	var v interface{} = []int{}
	nan := false
	p := attempt("read "+kind, func() {
		switch kind {
		case "int":
			var x int
			x, err = r.ReadInt()
			v = i8(int64(x))
		case "int64":
			var x int64
			x, err = r.ReadInt64()
			v = i8(x)
		case "bool":
			var x bool
			x, err = r.ReadBoolean()
			v = []int{0}
			if x {
				v = []int{1}
			}
		case "real":
			var x float64
			x, err = r.ReadReal()
			nan = math.IsNaN(x)
			if x == 0 {
				x = 0 // minus zero is zero
			}
			v = f8(x)
		case "str":
			var x string
			x, err = r.ReadString()
			v = B(x)
		case "bits":
			var x []byte
			x, err = r.ReadBitString()
			v = B(x)
			held.keep(x)
		case "oid":
			var x asn1.RelativeOID
			x, err = r.ReadOID(tag)
			v = ints(x)
			held.keepOID(x)
		default:
			panic("kind " + kind)
		}
	})
	point()
	emit(E{"op": "r", "k": kind, "tag": int(tag), "in": B(in), "v": v, "nan": nan, "err": err != nil,
		"panic": p, "off": len(in) - r.Len(), "len": r.Len(), "kept": held.same()})
	return err == nil && p == ""
}

func readOne(kind string, tag uint8, in []byte) bool {
	return read(asn1.NewASNReader(in), kind, tag, in)
}

type berCase struct {
	Op  string `json:"op"`
	K   string `json:"k"`
	Tag int    `json:"tag"`
	V   []int  `json:"v"`
	In  B      `json:"in"`
}

func berCases() {
	w := asn1.NewASNWriter()
	cases(func(raw json.RawMessage) {
		var c berCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		if c.Op == "w" {
			out := write(w, c.K, c.V, uint8(c.Tag))
			if k, ok := readKind[c.K]; ok {
				readOne(k, uint8(c.Tag), out)
			}
		} else {
			readOne(c.K, uint8(c.Tag), c.In)
		}
	})
}

var readKind = map[string]string{"int": "int", "int64": "int64", "bool": "bool", "real": "real", "str": "str", "oid": "oid"}

// lengthForm gives the length octets for n with k bytes in long form (0: shortest).
func lengthForm(n int, k int) []byte {
	if k == 0 {
		switch {
		case n < 0x80:
			return []byte{byte(n)}
		case n < 0x100:
			k = 1
		case n < 0x10000:
			k = 2
		case n < 0x1000000:
			k = 3
		default:
			k = 4
		}
	}
	b := []byte{0x80 | byte(k)}
	for j := k - 1; j >= 0; j-- {
		b = append(b, byte(n>>(8*j)))
	}
	return b
}

func item(tag uint8, form int, content []byte) []byte {
	return append(append([]byte{tag}, lengthForm(len(content), form)...), content...)
}

func randForm() int {
	if rng.Intn(2) == 0 {
		return 0
	}
	return 1 + rng.Intn(4)
}

func fitForm(n int) int {
	f := randForm()
	if f == 1 && n > 0xff || f == 2 && n > 0xffff {
		return 0
	}
	return f
}

func randBytes(n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

// mixed writes a run of values with one writer and reads them back with one
// reader, and some prefixes of the bytes.
func mixed(n int, one func() (string, []int, uint8)) {
	for i := 0; i < n; i++ {
		w := asn1.NewASNWriter()
		var all []byte
		var kinds []string
		var tags []uint8
		for j := 1 + rng.Intn(4); j > 0; j-- {
			kind, v, tag := one()
			all = append(all, write(w, kind, v, tag)...)
			if kind == "buf" && tag == 3 {
				kind = "bits"
			}
			kinds = append(kinds, kind)
			tags = append(tags, tag)
		}
		r := asn1.NewASNReader(all)
		for j, kind := range kinds {
			rest := all[len(all)-r.Len():]
			if kind == "null" || kind == "enum" || kind == "inttag" || kind == "int64tag" || kind == "buf" {
				break
			}
			if !read(r, kind, tags[j], rest) {
				break
			}
		}
		if k, ok := readKind[kinds[0]]; ok || kinds[0] == "bits" {
			if !ok {
				k = "bits"
			}
			readOne(k, tags[0], all[:rng.Intn(len(all))])
		}
	}
}

func suiteInts() {
	berCases()
	var all []int64
	for k := uint(0); k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			all = append(all, int64(1)<<k+d, -(int64(1)<<k)+d)
		}
	}
	w := asn1.NewASNWriter()
	for _, v := range all {
		readOne("int64", 2, write(w, "int64", list(i8(v)), 2))
		if int64(int32(v)) == v {
			readOne("int", 2, write(w, "int", list(i8(v)), 2))
			write(w, "enum", list(i8(v)), 10)
		}
	}
	randInt := func() int64 { return int64(rng.Uint64()) >> uint(rng.Intn(64)) }
	mixed(pick(1500, 15000), func() (string, []int, uint8) {
		switch rng.Intn(6) {
		case 0:
			return "bool", []int{rng.Intn(2)}, 1
		case 1:
			return "int", list(i8(int64(int32(randInt())))), 2
		case 2:
			return "enum", list(i8(int64(int32(randInt())))), 10
		case 3:
			return "null", nil, 5
		}
		return "int64", list(i8(randInt())), 2
	})
	for i := pick(2000, 20000); i > 0; i-- {
		// any content under any form of length
		c := randBytes(rng.Intn(10))
		if len(c) > 1 && rng.Intn(2) == 0 {
			for j := 0; j < len(c)-1-rng.Intn(len(c)-1); j++ {
				c[j] = byte(-rng.Intn(2))
			}
		}
		in := item(2, fitForm(len(c)), c)
		in = append(in, randBytes(rng.Intn(3))...)
		kind := []string{"int", "int64", "int64", "bool"}[rng.Intn(4)]
		if kind == "bool" {
			in[0] = 1
		}
		if rng.Intn(8) == 0 {
			in = in[:rng.Intn(len(in))]
		}
		readOne(kind, in0(in), in)
	}
}

func in0(b []byte) uint8 {
	if len(b) == 0 {
		return 0
	}
	return b[0]
}

func randReal() float64 {
	bits := rng.Uint64()
	switch rng.Intn(8) {
	case 0: // subnormal
		bits &= 0x800fffffffffffff
	case 1: // few mantissa bits
		bits &= ^uint64(0) << uint(rng.Intn(53))
	case 2: // many ones
		bits |= (uint64(1)<<uint(rng.Intn(53)) - 1)
	case 3: // small exponents
		bits = bits&0x800fffffffffffff | uint64(1023-260+rng.Intn(520))<<52
	case 4:
		return float64(int32(rng.Uint32())) / float64(int(1)<<uint(rng.Intn(12)))
	case 5: // edges of the exponent
		bits = bits&0x800fffffffffffff | uint64([]int{0, 1, 2045, 2046, 2047, 1022, 1023, 1024, 1023 - 128, 1023 - 129, 1023 + 127, 1023 + 128}[rng.Intn(12)])<<52
	}
	return math.Float64frombits(bits)
}

func suiteReals() {
	berCases()
	w := asn1.NewASNWriter()
	for _, v := range []float64{0, 1, -1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1),
		math.NaN(), math.Copysign(0, -1), 0.1, 1e308, 1e-308, 255, 256, 65535, 1 << 53, 1<<53 - 1, 4503599627370496.5} {
		readOne("real", 9, write(w, "real", list(f8(v)), 9))
	}
	for x := 0; x < 2048; x++ {
		v := uint64(x)<<52 | rng.Uint64()>>12 | rng.Uint64()<<63
		if rng.Intn(4) == 0 {
			v &^= uint64(1)<<uint(rng.Intn(52)) - 1
		}
		readOne("real", 9, write(w, "real", list(i8(int64(v))), 9))
	}
	mixed(pick(2000, 40000), func() (string, []int, uint8) { return "real", list(f8(randReal())), 9 })
	for i := pick(1500, 20000); i > 0; i-- {
		// conforming contents as another writer may make them
		v := math.Float64bits(randReal())
		m := v&0x000fffffffffffff | 0x0010000000000000
		x := int(v>>52&0x7ff) - 1023
		if x == 1024 {
			continue
		}
		for n := rng.Intn(53); n > 0 && m&1 == 0; n-- {
			m >>= 1
		}
		xl := 2 + rng.Intn(2)
		if x >= -128 && x < 128 && rng.Intn(2) == 0 {
			xl = 1
		}
		c := []byte{0x80 | byte(v>>63)<<6 | byte(xl-1)}
		for j := xl - 1; j >= 0; j-- {
			c = append(c, byte(x>>uint(8*j)))
		}
		mb := i8(int64(m))
		lead := 0
		for mb[lead] == 0 && lead < 7 {
			lead++
		}
		if lead > 0 && rng.Intn(3) == 0 {
			lead--
		}
		c = append(c, mb[lead:]...)
		in := item(9, randForm(), c)
		if rng.Intn(10) == 0 {
			in = in[:rng.Intn(len(in))]
		} else {
			in = append(in, randBytes(rng.Intn(3))...)
		}
		readOne("real", 9, in)
	}
}

// pattern gives n bytes in which no part looks like another.
func pattern(n int) []byte {
	b := make([]byte, n)
	x := uint32(n)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func longString(kind string, n int, tag uint8) {
	content := pattern(n)
	w := asn1.NewASNWriter()
	var err errors.Error
	p := attempt("write long "+kind, func() {
		if kind == "str" {
			err = w.WriteString(string(content))
		} else {
			err = w.WriteBuffer(content, tag)
		}
	})
	out := drain(w)
	head, m := out, false
	if len(out) >= n && bytes.Equal(out[len(out)-n:], content) {
		head, m = out[:len(out)-n], true
	}
	if len(head) > 20 {
		head = head[:20]
	}
	point()
	emit(E{"op": "wbig", "k": kind, "tag": int(tag), "n": n, "head": B(head), "m": m, "err": err != nil, "panic": p})

	rkind, rtag := kind, tag
	if kind == "buf" {
		rkind, rtag = "bits", 3
	}
	for form := 0; form <= 4; form++ {
		if form == 1 && n > 0xff || form == 2 && n > 0xffff || form == 3 && n > 0xffffff {
			continue
		}
		for _, cut := range []int{0, 1, n / 2, -3} {
			head := append([]byte{rtag}, lengthForm(n, form)...)
			in := append(append([]byte{}, head...), content...)
			if cut >= 0 {
				in = in[:len(in)-cut]
			} else {
				in = append(in, 1, 2, 3)
			}
			have := n - cut
			r := asn1.NewASNReader(in)
			var got []byte
			var err errors.Error
			p := attempt("read long "+kind, func() {
				if rkind == "str" {
					var s string
					s, err = r.ReadString()
					got = []byte(s)
				} else {
					got, err = r.ReadBitString()
				}
			})
			point()
			emit(E{"op": "rbig", "k": rkind, "tag": int(rtag), "n": n, "head": B(head), "have": have, "got": len(got),
				"m": bytes.Equal(got, content), "len": r.Len(), "err": err != nil, "panic": p})
		}
	}
}

func suiteStrings() {
	berCases()
	edges := []int{0, 1, 127, 128, 200, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1}
	for i := pick(10, 200); i > 0; i-- {
		edges = append(edges, rng.Intn(1<<uint(6+rng.Intn(14))))
	}
	for _, n := range edges {
		longString("str", n, 12)
		longString("buf", n, 3)
	}
	mixed(pick(1500, 15000), func() (string, []int, uint8) {
		n := rng.Intn(20)
		if rng.Intn(8) == 0 {
			n = rng.Intn(300)
		}
		v := list(randBytes(n))
		if rng.Intn(3) == 0 {
			for i := range v {
				v[i] = 0
			}
		}
		if rng.Intn(2) == 0 {
			return "str", v, 12
		}
		return "buf", v, 3
	})
	for i := pick(1500, 15000); i > 0; i-- {
		c := randBytes(rng.Intn(30))
		tag := uint8(12)
		if rng.Intn(2) == 0 {
			tag = 3
		}
		in := append(item(tag, fitForm(len(c)), c), randBytes(rng.Intn(4))...)
		if rng.Intn(4) == 0 {
			in = in[:rng.Intn(len(in))]
		}
		kind := "str"
		if tag == 3 {
			kind = "bits"
		}
		if rng.Intn(20) == 0 {
			kind = "str"
		}
		readOne(kind, in0(in), in)
	}
}

func randComponent() int {
	switch rng.Intn(4) {
	case 0:
		return rng.Intn(128)
	case 1:
		e := uint(7 * (1 + rng.Intn(4)))
		return int(1)<<e + rng.Intn(3) - 1
	}
	return int(rng.Int31() >> uint(rng.Intn(31)))
}

func suiteOIDs() {
	berCases()
	mixed(pick(2500, 25000), func() (string, []int, uint8) {
		v := make([]int, rng.Intn(8))
		if rng.Intn(30) == 0 {
			v = make([]int, rng.Intn(120))
		}
		for i := range v {
			v[i] = randComponent()
		}
		return "oid", v, 13
	})
	for i := pick(2000, 20000); i > 0; i-- {
		c := randBytes(rng.Intn(9))
		for j := range c {
			if rng.Intn(2) == 0 {
				c[j] &= 0x7f
			}
		}
		tag := uint8(13)
		if rng.Intn(4) == 0 {
			tag = uint8(rng.Intn(256))
		}
		in := append(item(tag, fitForm(len(c)), c), randBytes(rng.Intn(3))...)
		if rng.Intn(5) == 0 {
			in = in[:rng.Intn(len(in))]
		}
		ask := tag
		if rng.Intn(6) == 0 {
			ask = uint8(rng.Intn(256))
		}
		readOne("oid", ask, in)
	}
}
