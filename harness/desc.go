package main

import (
	"encoding/binary"
	"math"
	"math/rand"
	"sort"
)

// Descriptions of elements, as in Glow.tla, and an encoder of its own for them.

type Field struct {
	K int    `json:"k"`
	T string `json:"t"`
	V []int  `json:"v"`
}

type Conn struct {
	T int   `json:"t"`
	S []int `json:"s"`
	O int   `json:"o"`
	D int   `json:"d"`
}

type Elem struct {
	K   string  `json:"k"`
	Q   bool    `json:"q"`
	P   []int   `json:"p"`
	Has bool    `json:"has"`
	F   []Field `json:"f"`
	Ch  []*Elem `json:"ch"`
	Tg  []int   `json:"tg"`
	Sr  []int   `json:"sr"`
	Cn  []Conn  `json:"cn"`
}

func (e *Elem) num() int { return e.P[len(e.P)-1] }

func newElem(k string, q bool, p ...int) *Elem {
	return &Elem{K: k, Q: q, P: append([]int{}, p...), F: []Field{}, Ch: []*Elem{}, Tg: []int{}, Sr: []int{}, Cn: []Conn{}}
}

var elemTags = map[string][2]byte{"node": {99, 106}, "param": {97, 105}, "matrix": {109, 113}, "func": {115, 116}, "cmd": {98, 98}}

func (e *Elem) tag() byte {
	if e.Q {
		return elemTags[e.K][1]
	}
	return elemTags[e.K][0]
}

// enc chooses the length form of every container and the order of the fields.
type enc struct {
	r    *rand.Rand
	form func() int // 0 indefinite, 1 shortest, 2..5 long form with that many bytes + 1
	mix  bool       // any order of fields
}

func plainEnc() *enc { return &enc{r: rng, form: func() int { return 1 }} }
func indefEnc() *enc { return &enc{r: rng, form: func() int { return 0 }} }

// defEnc uses definite lengths only.
func mixedEnc(indef bool) *enc {
	e := &enc{r: rng, mix: true}
	e.form = func() int {
		if indef {
			return rng.Intn(6)
		}
		return 1 + rng.Intn(5)
	}
	return e
}

func lenOctets(n int, k int) []byte {
	if k == 0 {
		switch {
		case n < 128:
			return []byte{byte(n)}
		case n < 1<<8:
			k = 1
		case n < 1<<16:
			k = 2
		case n < 1<<24:
			k = 3
		default:
			k = 4
		}
	}
	out := []byte{byte(128 + k)}
	for i := k - 1; i >= 0; i-- {
		out = append(out, byte(n>>(8*uint(i))))
	}
	return out
}

func (e *enc) wrap(tag byte, parts ...[]byte) []byte {
	var c []byte
	for _, p := range parts {
		c = append(c, p...)
	}
	f := e.form()
	if f == 0 {
		return append(append([]byte{tag, 128}, c...), 0, 0)
	}
	k := f - 1
	if k > 0 && k < 4 && len(c) >= 1<<(8*uint(k)) {
		k = 0
	}
	return append(append([]byte{tag}, lenOctets(len(c), k)...), c...)
}

func (e *enc) prim(tag byte, c []byte) []byte {
	k := 0
	if e.mix && e.r.Intn(4) == 0 {
		k = 1 + e.r.Intn(4)
		if k < 4 && len(c) >= 1<<(8*uint(k)) {
			k = 0
		}
	}
	return append(append([]byte{tag}, lenOctets(len(c), k)...), c...)
}

func shortest(v []byte) []byte {
	for len(v) > 1 && (v[0] == 0 && v[1] < 128 || v[0] == 255 && v[1] >= 128) {
		v = v[1:]
	}
	return v
}

func (e *enc) intv(v []int) []byte {
	c := shortest(bytesOf(v))
	if e.mix && e.r.Intn(4) == 0 && len(c) < 4 { // redundant sign byte
		s := byte(0)
		if c[0] >= 128 {
			s = 255
		}
		c = append([]byte{s}, c...)
	}
	return e.prim(2, c)
}

func num8(n int) []int { return list(i8(int64(n))) }

func oidContent(oid []int) []byte {
	var out []byte
	for _, n := range oid {
		g := []byte{byte(n & 127)}
		for n >>= 7; n > 0; n >>= 7 {
			g = append([]byte{byte(n&127) | 128}, g...)
		}
		out = append(out, g...)
	}
	return out
}

func realContent(v []int) []byte {
	b := binary.BigEndian.Uint64(bytesOf(v))
	f := math.Float64frombits(b)
	switch {
	case f == 0:
		return nil
	case math.IsInf(f, 1):
		return []byte{0x40}
	case math.IsInf(f, -1):
		return []byte{0x41}
	case math.IsNaN(f):
		return []byte{0x42}
	}
	x := int(b>>52&2047) - 1023
	m := b&(1<<52-1) | 1<<52
	for m&1 == 0 {
		m >>= 1
	}
	out := []byte{0x81 | byte(b>>63)<<6, byte(x >> 8), byte(x)}
	var mb []byte
	for ; m > 0; m >>= 8 {
		mb = append([]byte{byte(m)}, mb...)
	}
	return append(out, mb...)
}

func (e *enc) value(t string, v []int) []byte {
	switch t {
	case "int":
		return e.intv(v)
	case "bool":
		if v[0] == 0 {
			return e.prim(1, []byte{0})
		}
		return e.prim(1, []byte{byte(1 + e.r.Intn(255))})
	case "real":
		return e.prim(9, realContent(v))
	case "oid":
		return e.prim(13, oidContent(v))
	case "buf":
		return e.prim(3, bytesOf(v))
	case "str":
		return e.prim(12, bytesOf(v))
	}
	panic(t)
}

func (e *enc) shuffle(parts [][]byte) [][]byte {
	if e.mix {
		e.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	return parts
}

func ctx(n int) byte { return byte(160 + n) }
func app(n int) byte { return byte(96 + n) }

func (e *enc) list(cs [][]byte) []byte {
	parts := [][]byte{}
	for _, c := range cs {
		parts = append(parts, e.wrap(ctx(0), c))
	}
	return e.wrap(48, parts...)
}

func (e *enc) label(p []int, d []int) []byte {
	return e.wrap(app(18), e.wrap(ctx(0), e.value("oid", p)), e.wrap(ctx(1), e.value("str", d)))
}

func (e *enc) tuple(t int, n []int) []byte {
	return e.wrap(app(21), e.shuffle([][]byte{e.wrap(ctx(0), e.intv(num8(t))), e.wrap(ctx(1), e.value("str", n))})...)
}

func (e *enc) field(f Field) []byte {
	var c []byte
	switch f.T {
	case "labels":
		var ls [][]byte
		for v := f.V; len(v) > 0; {
			n, m := v[0], v[v[0]+1]
			ls = append(ls, e.label(v[1:n+1], v[n+2:n+2+m]))
			v = v[n+2+m:]
		}
		c = e.list(ls)
	case "tuples":
		var ts [][]byte
		for v := f.V; len(v) > 0; {
			ts = append(ts, e.tuple(v[0], v[2:2+v[1]]))
			v = v[2+v[1]:]
		}
		c = e.list(ts)
	default:
		c = e.value(f.T, f.V)
	}
	return e.wrap(ctx(f.K), c)
}

func (e *enc) contents(k string, fs []Field) []byte {
	if k == "cmd" {
		return e.intv(fs[0].V)
	}
	parts := [][]byte{}
	for _, f := range fs {
		parts = append(parts, e.field(f))
	}
	return e.wrap(49, e.shuffle(parts)...)
}

func (e *enc) signal(tag byte, n int) []byte { return e.wrap(tag, e.wrap(ctx(0), e.intv(num8(n)))) }

func (e *enc) conn(c Conn) []byte {
	parts := [][]byte{}
	if len(c.S) > 0 || e.mix && e.r.Intn(2) == 0 {
		parts = append(parts, e.wrap(ctx(1), e.value("oid", c.S)))
	}
	if c.O != 0 || e.mix && e.r.Intn(2) == 0 {
		parts = append(parts, e.wrap(ctx(2), e.intv(num8(c.O))))
	}
	if c.D != 0 || e.mix && e.r.Intn(2) == 0 {
		parts = append(parts, e.wrap(ctx(3), e.intv(num8(c.D))))
	}
	return e.wrap(app(16), append([][]byte{e.wrap(ctx(0), e.intv(num8(c.T)))}, e.shuffle(parts)...)...)
}

func (e *enc) elem(x *Elem) []byte {
	first := e.wrap(ctx(0), func() []byte {
		if x.Q {
			return e.value("oid", x.P)
		}
		return e.intv(num8(x.P[0]))
	}())
	parts := [][]byte{}
	if x.Has {
		parts = append(parts, e.wrap(ctx(1), e.contents(x.K, x.F)))
	}
	empty := func() bool { return e.mix && e.r.Intn(6) == 0 }
	if len(x.Ch) > 0 || x.K != "cmd" && empty() {
		cs := [][]byte{}
		for _, c := range x.Ch {
			cs = append(cs, e.wrap(ctx(0), e.elem(c)))
		}
		parts = append(parts, e.wrap(ctx(2), e.wrap(app(4), e.shuffle(cs)...)))
	}
	if x.K == "matrix" {
		lists := [][][]byte{{}, {}, {}}
		for _, t := range x.Tg {
			lists[0] = append(lists[0], e.signal(app(14), t))
		}
		for _, s := range x.Sr {
			lists[1] = append(lists[1], e.signal(app(15), s))
		}
		for _, c := range x.Cn {
			lists[2] = append(lists[2], e.conn(c))
		}
		for i, l := range lists {
			if len(l) > 0 || empty() {
				parts = append(parts, e.wrap(ctx(3+i), e.list(l)))
			}
		}
	}
	return e.wrap(x.tag(), append([][]byte{first}, e.shuffle(parts)...)...)
}

func (e *enc) msg(els []*Elem) []byte {
	if len(els) == 0 && e.r.Intn(2) == 0 {
		return e.wrap(app(0))
	}
	parts := [][]byte{}
	for _, x := range els {
		parts = append(parts, e.wrap(ctx(0), e.elem(x)))
	}
	return e.wrap(app(0), e.wrap(app(11), parts...))
}

func (e *enc) invocation(id int, withID bool, args []Field, withArgs bool) []byte {
	parts := [][]byte{}
	if withID {
		parts = append(parts, e.wrap(ctx(0), e.intv(num8(id))))
	}
	if withArgs {
		cs := [][]byte{}
		for _, a := range args {
			cs = append(cs, e.value(a.T, a.V))
		}
		parts = append(parts, e.wrap(ctx(1), e.list(cs)))
	}
	return e.wrap(app(22), e.shuffle(parts)...)
}

// ---- random descriptions ----

type gen struct {
	strMax   int
	many     int // labels and tuples more than a few
	maxKids  int
	noCmd    bool
	glowOnly bool // parameter access and type as integers
	fill     int  // fields are given with probability fill/4
}

var edgeInts = []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 1<<31 - 1, -1 << 31}
var wideInts = []int64{1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 40, 1<<63 - 1, -1 << 63, 1<<55 - 1, -1 << 55}
var edgeReals = []float64{1, -1, 0.5, 2, -0.75, 1e-300, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64 * (1 << 30) * (1 << 30), 255, 256, 1.0 / 3, math.Pi, 0, math.Inf(1), math.Inf(-1), 1e-30}
var edgeNums = []int{0, 1, 2, 3, 5, 10, 126, 127, 128, 129, 255, 256, 300, 16383, 16384, 65535, 65536, 2097151, 2097152, 268435456, 1<<31 - 1}

func rint32() int {
	if rng.Intn(3) > 0 {
		return int(edgeInts[rng.Intn(len(edgeInts))])
	}
	return int(int32(rng.Uint32()))
}

func rint64() []int {
	switch rng.Intn(3) {
	case 0:
		return list(i8(edgeInts[rng.Intn(len(edgeInts))]))
	case 1:
		return list(i8(wideInts[rng.Intn(len(wideInts))]))
	}
	return list(i8(int64(rng.Uint64()) >> uint(rng.Intn(64))))
}

func rreal() []int {
	switch rng.Intn(4) {
	case 0:
		return list(f8(math.Ldexp(1+rng.Float64(), rng.Intn(2040)-1020)))
	case 1:
		if rng.Intn(6) == 0 {
			return list(f8(math.NaN()))
		}
		return list(f8(-math.Ldexp(float64(rng.Intn(1<<20)+1), rng.Intn(300)-150)))
	}
	return list(f8(edgeReals[rng.Intn(len(edgeReals))]))
}

func (g *gen) rstr() []int {
	n := 0
	switch rng.Intn(6) {
	case 0:
		n = 0
	case 1:
		n = rng.Intn(g.strMax + 1)
	default:
		n = 1 + rng.Intn(6)
	}
	l := make([]int, n)
	for i := range l {
		if rng.Intn(3) == 0 {
			l[i] = []int{0, 127, 128, 255, 254, 253, 49, 160}[rng.Intn(8)]
		} else {
			l[i] = 32 + rng.Intn(90)
		}
	}
	return l
}

func rnum() int {
	if rng.Intn(3) == 0 {
		return edgeNums[rng.Intn(len(edgeNums))]
	}
	return rng.Intn(40)
}

func roid(min int, max int) []int {
	l := make([]int, min+rng.Intn(max-min+1))
	for i := range l {
		l[i] = rnum()
	}
	return l
}

func (g *gen) value(t string) []int {
	switch t {
	case "int":
		return rint64()
	case "int32":
		return num8(rint32())
	case "real":
		return rreal()
	case "str", "buf":
		return g.rstr()
	case "bool":
		return []int{rng.Intn(2)}
	case "oid":
		return roid(1, 5)
	case "labels":
		var l []int
		for n := 1 + g.many + rng.Intn(3); n > 0; n-- {
			p, d := roid(0, 4), g.rstr()
			l = append(l, len(p))
			l = append(l, p...)
			l = append(l, len(d))
			l = append(l, d...)
		}
		return l
	case "tuples":
		var l []int
		for n := 1 + g.many + rng.Intn(4); n > 0; n-- {
			d := g.rstr()
			l = append(l, rng.Intn(8), len(d))
			l = append(l, d...)
		}
		return l
	}
	panic(t)
}

var anyTypes = []string{"int", "real", "str", "bool", "buf"}

// fieldTypes gives, per kind, the type of each field (a choice of several
// for values). Access and type of parameters are integers in the DTD; the
// setters of the library make strings of them.
func (g *gen) fieldTypes(k string) map[int]string {
	val := func() string { return anyTypes[rng.Intn(len(anyTypes))] }
	bound := func() string { return []string{"int", "real"}[rng.Intn(2)] }
	acc := "str"
	if g.glowOnly {
		acc = "int"
	}
	switch k {
	case "node":
		return map[int]string{0: "str", 1: "str", 2: "bool", 3: "bool", 4: "str", 5: "oid"}
	case "param":
		return map[int]string{0: "str", 1: "str", 2: val(), 3: bound(), 4: bound(), 5: acc, 6: "str", 7: "str", 8: "int", 9: "bool",
			10: "str", 11: "int", 12: val(), 13: acc, 14: "int", 17: "str", 18: "oid"}
	case "matrix":
		loc := "oid"
		if rng.Intn(4) == 0 {
			loc = "int"
		}
		return map[int]string{0: "str", 1: "str", 2: "type", 3: "mode", 4: "int32", 5: "int32", 6: "int32", 7: "int32", 8: loc,
			9: "int32", 10: "labels", 11: "str", 12: "oid"}
	case "func":
		return map[int]string{0: "str", 1: "str", 2: "tuples", 3: "tuples"}
	}
	panic(k)
}

func (g *gen) fields(k string) []Field {
	fs := []Field{}
	if k == "cmd" {
		return []Field{{0, "int", num8([]int{-2, -1, 0, 1, 2, 3, 4, 5, 300}[rng.Intn(9)])}}
	}
	types := g.fieldTypes(k)
	keys := []int{}
	for n := range types {
		keys = append(keys, n)
	}
	sort.Ints(keys)
	for _, n := range keys {
		if rng.Intn(4) >= g.fill {
			continue
		}
		t := types[n]
		var v []int
		switch t {
		case "type":
			t, v = "int", num8(rng.Intn(3))
			if g.glowOnly && rng.Intn(2) == 0 {
				v = g.value("int32")
			}
		case "mode":
			t, v = "int", num8(rng.Intn(2))
			if g.glowOnly && rng.Intn(2) == 0 {
				v = g.value("int32")
			}
		case "int32":
			t, v = "int", g.value("int32")
		default:
			v = g.value(t)
		}
		if v == nil {
			v = []int{}
		}
		fs = append(fs, Field{n, t, v})
	}
	return fs
}

func distinct(n int, pick func() int) []int {
	seen := map[int]bool{}
	l := []int{}
	for tries := 0; len(l) < n && tries < 20*n; tries++ {
		x := pick()
		if !seen[x] {
			seen[x] = true
			l = append(l, x)
		}
	}
	return l
}

func (g *gen) conns(n int) []Conn {
	cs := []Conn{}
	for _, t := range distinct(n, func() int { return rng.Intn(300) }) {
		cs = append(cs, Conn{T: t, S: roid(0, 5), O: rng.Intn(3), D: rng.Intn(4)})
	}
	return cs
}

var kindsW = []string{"node", "node", "param", "param", "param", "matrix", "func", "cmd"}

func (g *gen) elem(depth int, q bool, p ...int) *Elem {
	k := kindsW[rng.Intn(len(kindsW))]
	if q || g.noCmd {
		for k == "cmd" {
			k = kindsW[rng.Intn(len(kindsW))]
		}
	}
	return g.elemOf(k, depth, q, p...)
}

func (g *gen) elemOf(k string, depth int, q bool, p ...int) *Elem {
	e := newElem(k, q, p...)
	e.Has = k == "cmd" || rng.Intn(4) > 0
	if e.Has {
		e.F = g.fields(k)
	}
	if k == "matrix" {
		e.Tg = distinct(rng.Intn(4), func() int { return rint32() })
		e.Sr = distinct(rng.Intn(4), func() int { return rint32() })
		e.Cn = g.conns(rng.Intn(4))
	}
	if depth > 0 && k != "cmd" && rng.Intn(3) > 0 {
		for _, n := range distinct(rng.Intn(g.maxKids+1), rnum) {
			e.Ch = append(e.Ch, g.elem(depth-1, false, n))
		}
	}
	return e
}

func (g *gen) msg(n int, depth int) []*Elem {
	els := []*Elem{}
	for _, x := range distinct(n, rnum) {
		els = append(els, g.elem(depth, rng.Intn(4) == 0, x))
	}
	return els
}
