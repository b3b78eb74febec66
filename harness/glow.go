package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
)

func init() {
	suites["C06"] = suiteForms
	suites["C07"] = suiteCut
	suites["C09"] = suiteTrees
	suites["C10"] = suiteWire
	suites["C11"] = suiteMatrix
	suites["C12"] = suiteFunctions
}

// ---- what the library holds ----

type seen struct {
	K   string  `json:"k"`
	Q   bool    `json:"q"`
	P   []int   `json:"p"`
	Has bool    `json:"has"`
	G   []Field `json:"g"`
	Ch  []*seen `json:"ch"`
	Tg  []int   `json:"tg"`
	Sr  []int   `json:"sr"`
	Cn  []Conn  `json:"cn"`
}

var kindOfTag = map[byte]string{97: "param", 105: "param", 99: "node", 106: "node", 109: "matrix", 113: "matrix", 115: "func", 116: "func", 98: "cmd"}

func realBits(f float64) []int {
	if math.IsNaN(f) {
		return list(f8(math.NaN()))
	}
	if f == 0 {
		f = 0
	}
	return list(f8(f))
}

func valueOf(cp *embertree.ContentParameter) (string, []int, bool) {
	if !cp.IsSet() {
		return "", nil, false
	}
	switch cp.GetType() {
	case embertree.ValueTypeString:
		v, err := cp.GetString()
		return "str", list([]byte(v)), err == nil
	case embertree.ValueTypeBool:
		v, err := cp.GetBool()
		return "bool", b01(v), err == nil
	case embertree.ValueTypeInteger:
		v, err := cp.GetInt()
		return "int", list(i8(v)), err == nil
	case embertree.ValueTypeBuffer:
		v, err := cp.GetBuffer()
		return "buf", list(v), err == nil
	case embertree.ValueTypeReal:
		v, err := cp.GetReal()
		return "real", realBits(v), err == nil
	case embertree.ValueTypeOID:
		v, err := cp.GetRelativeOID()
		return "oid", ints(v), err == nil
	}
	return "", nil, false
}

func b01(b bool) []int {
	if b {
		return []int{1}
	}
	return []int{0}
}

// getters asks the contents for everything that can be asked for.
func getters(c embertree.EmberContents) []Field {
	g := []Field{}
	str := func(n int, f func() (string, errors.Error)) {
		if v, err := f(); err == nil {
			g = append(g, Field{n, "str", list([]byte(v))})
		}
	}
	boolean := func(n int, f func() (bool, errors.Error)) {
		if v, err := f(); err == nil {
			g = append(g, Field{n, "bool", b01(v)})
		}
	}
	i64 := func(n int, f func() (int64, errors.Error)) {
		if v, err := f(); err == nil {
			g = append(g, Field{n, "int", list(i8(v))})
		}
	}
	in := func(n int, f func() (int, errors.Error)) {
		if v, err := f(); err == nil {
			g = append(g, Field{n, "int", list(i8(int64(v)))})
		}
	}
	obj := func(n int, cp *embertree.ContentParameter) {
		if t, v, ok := valueOf(cp); ok {
			g = append(g, Field{n, t, v})
		}
	}
	tuples := func(n int, ts []*embertree.TupleDescription) {
		v := []int{}
		for _, t := range ts {
			v = append(v, int(t.Type), len(t.Name))
			v = append(v, list([]byte(t.Name))...)
		}
		if len(v) > 0 {
			g = append(g, Field{n, "tuples", v})
		}
	}
	switch x := c.(type) {
	case *embertree.NodeContents:
		str(0, x.GetIdentifier)
		str(1, x.GetDescription)
		boolean(2, x.GetIsRoot)
		boolean(3, x.GetIsOnline)
		str(4, x.GetSchemaIdentifiers)
		if v, err := x.GetTemplateReference(); err == nil && len(v) > 0 {
			g = append(g, Field{5, "oid", ints(v)})
		}
	case *embertree.ParameterContents:
		str(0, x.GetIdentifier)
		str(1, x.GetDescription)
		obj(2, x.GetValueObject())
		obj(3, x.GetMinimumObject())
		obj(4, x.GetMaximumObject())
		str(5, x.GetAccess)
		str(6, x.GetFormat)
		str(7, x.GetEnumeration)
		i64(8, x.GetFactor)
		boolean(9, x.GetOnline)
		str(10, x.GetFormula)
		i64(11, x.GetStep)
		obj(12, x.GetDefaultObject())
		str(13, x.GetType)
		i64(14, x.GetStreamIdentifier)
	case *embertree.MatrixContent:
		str(0, x.GetIdentifier)
		str(1, x.GetDescription)
		if v, err := x.GetType(); err == nil {
			g = append(g, Field{2, "int", num8(int(v))})
		}
		if v, err := x.GetMode(); err == nil {
			g = append(g, Field{3, "int", num8(int(v))})
		}
		in(4, x.GetTargetCount)
		in(5, x.GetSourceCount)
		in(6, x.GetMaxTotalConnects)
		in(7, x.GetMaxConnectsPerTarget)
		if v, err := x.GetParameterLocation(); err == nil {
			g = append(g, Field{8, "oid", ints(v)})
		}
		in(9, x.GetGainParameterNumber)
		str(11, x.GetSchemaIdentifier)
	case *embertree.FunctionContents:
		str(0, x.GetIdentifier)
		str(1, x.GetDescription)
		tuples(2, x.GetArguments())
		tuples(3, x.GetResult())
	case *embertree.CommandContents:
		g = append(g, Field{0, "int", num8(int(x.GetFieldFlags()))})
	}
	return g
}

func signals(l []embertree.Signal, target bool) []int {
	out := []int{}
	for _, s := range l {
		switch x := s.(type) {
		case *embertree.Target:
			if !target {
				out = append(out, -1) // a target among the sources
			}
			out = append(out, int(x.Number))
		case *embertree.Source:
			if target {
				out = append(out, -1) // a source among the targets
			}
			out = append(out, int(x.Number))
		default:
			panic(fmt.Sprintf("signal %T", s))
		}
	}
	return out
}

func seenConn(c *embertree.Connection) Conn {
	return Conn{T: int(c.Target), S: ints(c.Sources), O: int(c.GetOperation()), D: int(c.GetDisposition())}
}

func seenElem(e *embertree.Element) *seen {
	tag := e.GetTag()
	s := &seen{K: kindOfTag[tag], Q: embertree.IsQualifiedTag(tag), P: []int{e.Number}, G: []Field{}, Ch: []*seen{}, Tg: []int{}, Sr: []int{}, Cn: []Conn{}}
	if s.K == "" {
		s.K = fmt.Sprint("tag", tag)
	}
	if s.Q {
		s.P = ints(e.GetPath())
	}
	if c := e.GetContent(); c != nil {
		s.Has = true
		s.G = getters(c)
	}
	if c, err := e.GetContents(); err != nil || c != e.GetContent() {
		s.K += " with two contents"
	}
	for key, c := range e.Children {
		x := seenElem(c)
		if key != c.Number {
			x.K += fmt.Sprint(" under key ", key)
		}
		s.Ch = append(s.Ch, x)
	}
	sortSeen(s.Ch)
	if l, err := e.GetTargets(); err == nil {
		s.Tg = signals(l, true)
	}
	if l, err := e.GetSources(); err == nil {
		s.Sr = signals(l, false)
	}
	if l, err := e.GetConnections(); err == nil {
		for _, c := range l {
			s.Cn = append(s.Cn, seenConn(c))
		}
	}
	return s
}

func sortSeen(l []*seen) {
	sort.Slice(l, func(i, j int) bool { return l[i].P[len(l[i].P)-1] < l[j].P[len(l[j].P)-1] })
}

func seenRoot(r *embertree.RootElement) []*seen {
	l := []*seen{}
	for key, e := range r.RootElementCollection {
		x := seenElem(e)
		if key != e.Number {
			x.K += fmt.Sprint(" under key ", key)
		}
		l = append(l, x)
	}
	sortSeen(l)
	return l
}

// ---- decoding ----

var kindContents = map[string]func() embertree.EmberContents{
	"node": embertree.NewNodeContents, "param": embertree.NewParameterContents, "func": embertree.NewFunctionContents,
	"matrix": func() embertree.EmberContents { return &embertree.MatrixContent{} }, "cmd": embertree.NewCommandContents,
}

type decoded struct {
	v     interface{}
	out   []byte
	err   bool
	oerr  bool
	rest  int
	panic string
}

type encoder interface {
	Encode(*asn1.ASNWriter) errors.Error
}

func decode(what string, in []byte) decoded {
	var d decoded
	d.v = []int{}
	var err errors.Error
	d.panic = attempt("decode "+what, func() {
		r := asn1.NewASNReader(append([]byte{}, in...))
		var re encoder
		switch what {
		case "msg":
			root := embertree.NewTree()
			err = root.Decode(r)
			d.v, re = seenRoot(root), root
		case "el":
			var e *embertree.Element
			e, err = embertree.DecodeElement(r)
			if err == nil {
				d.v, re = []*seen{seenElem(e)}, e
			}
		case "label":
			var l *embertree.Label
			l, err = embertree.DecodeLabel(r)
			if err == nil {
				d.v, re = E{"p": ints(l.BasePath), "d": B(l.Description)}, l
			}
		case "conn":
			c := &embertree.Connection{}
			err = c.Decode(r)
			d.v, re = seenConn(c), c
		case "sig":
			var s embertree.Signal
			s, err = embertree.DecodeSignal(r)
			if err == nil {
				re = s
				switch x := s.(type) {
				case *embertree.Target:
					d.v = E{"k": "target", "n": int(x.Number)}
				case *embertree.Source:
					d.v = E{"k": "source", "n": int(x.Number)}
				}
			}
		case "tuple":
			t := &embertree.TupleDescription{}
			err = t.Decode(r)
			d.v, re = E{"t": int(t.Type), "n": B(t.Name)}, t
		case "inv":
			i := embertree.NewInvocation(0, nil)
			err = i.Decode(r)
			re = i
		case "node", "param", "func", "matrix", "cmd":
			c := kindContents[what]()
			err = c.Decode(r)
			d.v, re = getters(c), c
		default:
			panic("what " + what)
		}
		d.rest = r.Len()
		if err == nil {
			w := &asn1.ASNWriter{}
			d.oerr = re.Encode(w) != nil
			d.out = drain(w)
		}
	})
	d.err = err != nil
	if d.err || d.panic != "" {
		d.v = []int{}
	}
	return d
}

func (d decoded) event(op string, what string, in []byte) E {
	return E{"op": op, "what": what, "in": B(in), "err": d.err, "panic": d.panic, "v": d.v, "out": B(d.out), "oerr": d.oerr, "rest": d.rest}
}

func dec(what string, in []byte) decoded {
	d := decode(what, in)
	point()
	emit(d.event("dec", what, in))
	return d
}

// missing is how many bytes the outermost definite item of in lacks.
func missing(in []byte) int {
	p := 0
	for p < len(in) {
		if in[p] == 0 { // end of contents
			p += 2
			continue
		}
		if p+1 >= len(in) {
			return 0
		}
		n := int(in[p+1])
		p += 2
		if n == 128 {
			continue
		}
		if n > 128 {
			k := n - 128
			if k > 4 || p+k > len(in) {
				return 0
			}
			n = 0
			for i := 0; i < k; i++ {
				n = n<<8 + int(in[p+i])
			}
			p += k
		}
		if n > len(in)-p {
			return n - (len(in) - p)
		}
		p += n
	}
	return 0
}

// cut decodes a proper prefix of whole.
func cut(what string, whole []byte, n int) {
	in := whole[:n]
	d := decode(what, in)
	ev := d.event("cut", what, in)
	ev["whole"] = B(whole)
	same := false
	if m := missing(in); m > 0 && m <= len(in) && !d.err {
		p := decode(what, append(append([]byte{}, in...), make([]byte, m)...))
		a, _ := json.Marshal(d.v)
		b, _ := json.Marshal(p.v)
		same = !p.err && p.panic == "" && string(a) == string(b) && canonical(d.out) == canonical(p.out)
	}
	ev["padsame"] = same
	point()
	emit(ev)
}

// canonical is the multiset of bytes: the order of children is not defined.
func canonical(b []byte) string {
	c := append([]byte{}, b...)
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
	return string(c)
}

// ---- building with the public interface ----

func toTuples(v []int) []*embertree.TupleDescription {
	ts := []*embertree.TupleDescription{}
	for len(v) > 0 {
		ts = append(ts, embertree.NewArgument(embertree.ParameterType(v[0]), string(bytesOf(v[2:2+v[1]]))))
		v = v[2+v[1]:]
	}
	return ts
}

func int64Of(v []int) int64 {
	n := int64(0)
	for _, x := range v {
		n = n<<8 | int64(x)
	}
	return n
}

func setObj(cp *embertree.ContentParameter, f Field) {
	switch f.T {
	case "int":
		cp.SetInt(int64Of(f.V))
	case "real":
		cp.SetReal(math.Float64frombits(uint64(int64Of(f.V))))
	case "str":
		cp.SetString(string(bytesOf(f.V)))
	case "bool":
		cp.SetBool(f.V[0] != 0)
	case "buf":
		cp.SetBuffer(bytesOf(f.V))
	case "oid":
		cp.SetRelativeOID(oidOf(f.V))
	}
}

// setField sets a field through its setter; false if it has none.
func setField(c embertree.EmberContents, f Field) bool {
	s := func() string { return string(bytesOf(f.V)) }
	switch x := c.(type) {
	case *embertree.NodeContents:
		switch f.K {
		case 0:
			x.SetIdentifier(s())
		case 1:
			x.SetDescription(s())
		case 2:
			x.SetIsRoot(f.V[0] != 0)
		case 3:
			x.SetIsOnline(f.V[0] != 0)
		case 4:
			x.SetSchemaIdentifiers(s())
		case 5:
			x.SetTemplateReference(oidOf(f.V))
		default:
			return false
		}
	case *embertree.ParameterContents:
		switch f.K {
		case 0:
			x.SetIdentifier(s())
		case 1:
			x.SetDescription(s())
		case 2:
			setObj(x.GetValueObject(), f)
		case 3:
			setObj(x.GetMinimumObject(), f)
		case 4:
			setObj(x.GetMaximumObject(), f)
		case 5:
			x.SetAccess(s())
		case 6:
			x.SetFormat(s())
		case 7:
			x.SetEnumeration(s())
		case 8:
			x.SetFactor(int64Of(f.V))
		case 9:
			x.SetOnline(f.V[0] != 0)
		case 10:
			x.SetFormula(s())
		case 11:
			x.SetStep(int64Of(f.V))
		case 12:
			setObj(x.GetDefaultObject(), f)
		case 13:
			x.SetType(s())
		case 14:
			x.SetStreanIdentifier(int64Of(f.V))
		default:
			return false
		}
	case *embertree.MatrixContent:
		n := int(int64Of(f.V))
		var err errors.Error
		switch f.K {
		case 0:
			x.SetIdentifier(s())
		case 1:
			x.SetDescription(s())
		case 2:
			err = x.SetType(embertree.MatrixType(n))
		case 3:
			err = x.SetMode(embertree.MatrixMode(n))
		case 4:
			err = x.SetTargetCount(n)
		case 5:
			err = x.SetSourceCount(n)
		case 6:
			err = x.SetMaxTotalConnects(n)
		case 7:
			err = x.SetMaxConnectsPerTarget(n)
		case 8:
			if f.T != "oid" {
				return false
			}
			err = x.SetParameterLocation(oidOf(f.V))
		case 9:
			err = x.SetGainParameterNumber(n)
		case 11:
			err = x.SetSchemaIdentifier(s())
		default:
			return false
		}
		if err != nil {
			return false
		}
	case *embertree.FunctionContents:
		switch f.K {
		case 0:
			x.SetIdentifier(s())
		case 1:
			x.SetDescription(s())
		case 2:
			x.SetArguments(toTuples(f.V))
		case 3:
			x.SetResult(toTuples(f.V))
		default:
			return false
		}
	case *embertree.CommandContents:
		x.SetFieldFlags(embertree.FieldFlags(int64Of(f.V)))
	}
	return true
}

func field(fs []Field, k int) int {
	for _, f := range fs {
		if f.K == k {
			return int(int64Of(f.V))
		}
	}
	return 0
}

// build makes the element with the constructors and setters of the library
// and corrects the description where they do not allow what it says.
func build(d *Elem) *embertree.Element {
	var e *embertree.Element
	switch {
	case d.K == "node" && d.Q:
		e = embertree.NewQualifiedNode(oidOf(d.P))
	case d.K == "node":
		e = embertree.NewNode(d.P[0])
	case d.K == "param" && d.Q:
		e = embertree.NewQualifiedParameter(oidOf(d.P))
	case d.K == "param":
		e = embertree.NewParameter(d.P[0])
	case d.K == "func" && d.Q:
		e = embertree.NewQualifiedElement(embertree.QualifiedFunctionApplication, oidOf(d.P), embertree.NewFunctionContents)
	case d.K == "func":
		e = embertree.NewFunction(d.P[0])
	case d.K == "matrix":
		var mc *embertree.MatrixContent
		t, m := field(d.F, 2), field(d.F, 3)
		if d.Q {
			e = embertree.NewQualifiedMatrix(oidOf(d.P), embertree.MatrixType(t), embertree.MatrixMode(m))
		} else {
			e, _ = embertree.NewMatrix(d.P[0], embertree.MatrixType(t), embertree.MatrixMode(m))
		}
		mc = e.GetContent().(*embertree.MatrixContent)
		fs := []Field{{2, "int", num8(t)}, {3, "int", num8(m)}}
		for _, f := range d.F {
			if f.K != 2 && f.K != 3 && setField(mc, f) {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].K < fs[j].K })
		d.Has, d.F = true, fs
		ts, ss := []embertree.Signal{}, []embertree.Signal{}
		for _, n := range d.Tg {
			ts = append(ts, embertree.NewTarget(int32(n)))
		}
		for _, n := range d.Sr {
			ss = append(ss, embertree.NewSource(int32(n)))
		}
		cs := []*embertree.Connection{}
		for _, x := range d.Cn {
			cs = append(cs, buildConn(x))
		}
		if e.SetTargets(ts) != nil || e.SetSources(ss) != nil || e.SetConnections(cs) != nil {
			panic("signals of a matrix refused")
		}
	case d.K == "cmd":
		e = embertree.NewCommand(d.P[0])
		e.GetContent().(*embertree.CommandContents).SetFieldFlags(embertree.FieldFlags(field(d.F, 0)))
	}
	if d.Has && d.K != "matrix" && d.K != "cmd" {
		c := e.CreateContent().(embertree.EmberContents)
		fs := []Field{}
		for _, f := range d.F {
			if setField(c, f) {
				fs = append(fs, f)
			}
		}
		d.F = fs
	}
	for _, c := range d.Ch {
		if err := e.AddChild(build(c)); err != nil {
			panic("child refused")
		}
	}
	return e
}

func buildConn(x Conn) *embertree.Connection {
	c := &embertree.Connection{Target: int32(x.T), Sources: oidOf(x.S)}
	if c.SetOperation(x.O) != nil || c.SetDisposition(x.D) != nil {
		panic("connection refused")
	}
	return c
}

// encodeEls builds and encodes a message (or one element) and has it decoded.
// Some are then changed, and encoded again.
func encodeEls(what string, els []*Elem) {
	var x encoder
	var built []*embertree.Element
	p := attempt("build "+what, func() {
		for _, d := range els {
			built = append(built, build(d))
		}
		if what == "el" {
			x = built[0]
			return
		}
		root := embertree.NewRoot()
		for _, e := range built {
			root.AddElement(e)
		}
		x = root
	})
	if p != "" {
		emit(E{"op": "enc", "what": what, "d": els, "out": B{}, "err": false, "panic": p})
		return
	}
	encodeOne(what, els, x)
	for n := rng.Intn(6) - 3; n > 0 && len(els) > 0; n-- {
		i := rng.Intn(len(els))
		attempt("change "+what, func() { alter(els[i], built[i]) })
		encodeOne(what, els, x)
	}
}

// alter changes e, or an element below it, and what d says of it.
func alter(d *Elem, e *embertree.Element) {
	for len(d.Ch) > 0 && rng.Intn(3) > 0 {
		c := d.Ch[rng.Intn(len(d.Ch))]
		d, e = c, e.Children[c.num()]
	}
	g := defaultGen()
	switch n := rng.Intn(4); {
	case d.K == "cmd":
		f := 1 + rng.Intn(5)
		e.GetContent().(*embertree.CommandContents).SetFieldFlags(embertree.FieldFlags(f))
		d.F = []Field{{0, "int", num8(f)}}
	case n == 0:
		c := g.elemOf([]string{"node", "param", "func", "matrix"}[rng.Intn(4)], 0, false, rnum())
		chs := []*Elem{}
		for _, x := range d.Ch {
			if x.num() != c.num() {
				chs = append(chs, x)
			}
		}
		d.Ch = append(chs, c)
		if e.AddChild(build(c)) != nil {
			panic("child refused")
		}
	case n == 1 && d.K == "matrix":
		d.Tg, d.Cn = []int{rnum()}, g.conns(rng.Intn(3))
		cs := []*embertree.Connection{}
		for _, x := range d.Cn {
			cs = append(cs, buildConn(x))
		}
		if e.SetTargets([]embertree.Signal{embertree.NewTarget(int32(d.Tg[0]))}) != nil || e.SetConnections(cs) != nil {
			panic("signals of a matrix refused")
		}
	default:
		if !d.Has {
			e.CreateContent()
			d.Has = true
		}
		fs := g.fields(d.K)
		for len(fs) == 0 {
			fs = g.fields(d.K)
		}
		f := fs[rng.Intn(len(fs))]
		if d.K == "matrix" && (f.K == 2 || f.K == 3) || !setField(e.GetContent(), f) {
			return
		}
		all := []Field{f}
		for _, x := range d.F {
			if x.K != f.K {
				all = append(all, x)
			}
		}
		sort.Slice(all, func(i, j int) bool { return all[i].K < all[j].K })
		d.F = all
	}
}

func encodeOne(what string, d interface{}, x encoder) {
	e := encoded(what, d, x)
	point()
	emit(e)
	if e["panic"] == "" && e["err"] == false {
		dec(what, e["out"].(B))
	}
}

func encoded(what string, d interface{}, x encoder) E {
	var out []byte
	var err errors.Error
	p := attempt("encode "+what, func() {
		w := &asn1.ASNWriter{}
		err = x.Encode(w)
		out = drain(w)
	})
	return E{"op": "enc", "what": what, "d": d, "out": B(out), "err": err != nil, "panic": p}
}

// ---- suites ----

// glowCases runs the cases printed by MCGlow.
func glowCases() {
	cases(func(raw json.RawMessage) {
		var c struct {
			Op   string  `json:"op"`
			What string  `json:"what"`
			In   B       `json:"in"`
			D    []*Elem `json:"d"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		switch c.Op {
		case "dec":
			dec(c.What, c.In)
		case "enc":
			encodeEls(c.What, c.D)
		case "cut":
			for n := range c.In {
				cut(c.What, c.In, n)
			}
		}
	})
}

func defaultGen() *gen { return &gen{strMax: 20, maxKids: 4, fill: 2} }

func suiteForms() {
	glowCases()
	n := pick(120, 1500)
	for i := 0; i < n; i++ {
		g := defaultGen()
		g.glowOnly = i%2 == 0
		g.fill = 1 + rng.Intn(4)
		els := g.msg(rng.Intn(4), rng.Intn(4))
		for _, e := range []*enc{plainEnc(), indefEnc(), mixedEnc(true), mixedEnc(true), mixedEnc(false)} {
			dec("msg", e.msg(els))
		}
		x := g.elem(rng.Intn(3), true, roid(1, 5)...)
		for _, e := range []*enc{plainEnc(), indefEnc(), mixedEnc(true), mixedEnc(true)} {
			dec("el", e.elem(x))
		}
		k := kindsW[rng.Intn(len(kindsW))]
		fs := g.fields(k)
		for _, e := range []*enc{plainEnc(), indefEnc(), mixedEnc(true)} {
			dec(k, e.contents(k, fs))
			dec("conn", e.conn(Conn{T: rint32(), S: roid(0, 5), O: rng.Intn(3), D: rng.Intn(4)}))
			dec("label", e.label(roid(0, 4), g.rstr()))
			dec("sig", e.signal(app(14+rng.Intn(2)), rint32()))
			dec("tuple", e.tuple(rng.Intn(8), g.rstr()))
			dec("inv", e.invocation(rint32(), rng.Intn(4) > 0, g.args(rng.Intn(4)), rng.Intn(4) > 0))
		}
	}
}

func (g *gen) args(n int) []Field {
	as := []Field{}
	for ; n > 0; n-- {
		t := append(anyTypes, "oid")[rng.Intn(6)]
		v := g.value(t)
		if v == nil {
			v = []int{}
		}
		as = append(as, Field{0, t, v})
	}
	return as
}

func suiteCut() {
	glowCases()
	n := pick(40, 400)
	for i := 0; i < n; i++ {
		g := defaultGen()
		g.strMax = 8
		g.maxKids = 2
		els := g.msg(1+rng.Intn(2), rng.Intn(3))
		for _, e := range []*enc{plainEnc(), mixedEnc(false), mixedEnc(true)} {
			m := e.msg(els)
			if len(m) > 400 {
				continue
			}
			for j := 0; j < 40; j++ {
				cut("msg", m, rng.Intn(len(m)))
			}
			x := e.elem(els[0])
			for j := 0; j < 20; j++ {
				cut("el", x, rng.Intn(len(x)))
			}
			k := kindsW[rng.Intn(len(kindsW))]
			c := e.contents(k, g.fields(k))
			for j := 0; j < 10; j++ {
				cut(k, c, rng.Intn(len(c)))
			}
			for w, b := range map[string][]byte{
				"conn":  e.conn(Conn{T: rint32(), S: roid(0, 3), O: rng.Intn(3), D: rng.Intn(4)}),
				"label": e.label(roid(0, 4), g.rstr()),
				"sig":   e.signal(app(14+rng.Intn(2)), rint32()),
				"tuple": e.tuple(rng.Intn(8), g.rstr()),
				"inv":   e.invocation(rint32(), true, g.args(rng.Intn(3)), true)} {
				for j := 0; j < 4; j++ {
					cut(w, b, rng.Intn(len(b)))
				}
			}
		}
	}
}

func suiteTrees() {
	glowCases()
	n := pick(250, 3000)
	for i := 0; i < n; i++ {
		g := defaultGen()
		g.fill = rng.Intn(5)
		encodeEls("msg", g.msg(rng.Intn(5), rng.Intn(5)))
		encodeEls("el", []*Elem{g.elem(rng.Intn(3), true, roid(1, 8)...)})
	}
	// deep and wide
	for i := 0; i < pick(6, 40); i++ {
		g := &gen{strMax: 4, fill: 1}
		top := g.elemOf("node", 0, false, rnum())
		at := top
		for d := 10 + rng.Intn(20); d > 0; d-- {
			c := g.elemOf([]string{"node", "node", "param", "func", "matrix"}[rng.Intn(5)], 0, false, rnum())
			at.Ch = append(at.Ch, c)
			at = c
		}
		encodeEls("msg", []*Elem{top})
		wide := g.elemOf("node", 0, i%2 == 0, rnum())
		for _, x := range distinct(40+rng.Intn(100), func() int { return rng.Intn(400) }) {
			wide.Ch = append(wide.Ch, g.elemOf([]string{"node", "param"}[rng.Intn(2)], 0, false, x))
		}
		encodeEls("msg", []*Elem{wide})
	}
	// long paths, many labels, arguments and results, long texts
	for i := 0; i < pick(4, 30); i++ {
		g := defaultGen()
		g.strMax = 400
		g.fill = 4
		g.many = 40 * (i % 3)
		for _, k := range []string{"node", "param", "func", "matrix"} {
			encodeEls("el", []*Elem{g.elemOf(k, 0, true, roid(60, 320)...)})
			encodeEls("msg", []*Elem{g.elemOf(k, 0, false, rnum())})
		}
	}
	// an element of each kind with children of each kind
	for _, k := range []string{"node", "param", "matrix", "func"} {
		for _, c := range []string{"node", "param", "matrix", "func", "cmd"} {
			for _, q := range []bool{false, true} {
				g := defaultGen()
				e := g.elemOf(k, 0, q, rnum())
				e.Ch = []*Elem{g.elemOf(c, 0, false, rnum())}
				if c != "cmd" && rng.Intn(2) == 0 {
					x := rnum()
					if x != e.Ch[0].num() {
						e.Ch = append(e.Ch, g.elemOf(c, 0, true, e.num(), x))
					}
				}
				encodeEls("msg", []*Elem{e})
			}
		}
	}
}

func suiteWire() {
	glowCases()
	// every field of every kind alone, and all at once
	for round := 0; round < pick(4, 60); round++ {
		for _, k := range []string{"node", "param", "matrix", "func", "cmd"} {
			g := defaultGen()
			g.fill = 4
			all := g.fields(k)
			for i := -1; i < len(all); i++ {
				e := newElem(k, false, rnum())
				e.Has = true
				if i >= 0 && k != "cmd" {
					e.F = []Field{all[i]}
				} else {
					e.F = append(e.F, all...)
				}
				encodeEls("msg", []*Elem{e})
				if k != "cmd" {
					q := newElem(k, true, roid(1, 5)...)
					q.Has, q.F = true, append([]Field{}, e.F...)
					encodeEls("el", []*Elem{q})
				}
				g.glowOnly = true
				if k != "cmd" {
					f := g.fields(k)
					dec(k, mixedEnc(true).contents(k, f))
					j := rng.Intn(len(f))
					dec(k, plainEnc().contents(k, f[j:j+1]))
				}
			}
		}
		g := defaultGen()
		encodeEls("msg", g.msg(3, 2))
		g.glowOnly = true
		dec("msg", mixedEnc(true).msg(g.msg(3, 2)))
		encodeOne("label", E{"p": []int{1, 2, round}, "d": B("x")}, embertree.NewLabel(oidOf([]int{1, 2, round}), "x"))
	}
	// commands
	for _, n := range []int{embertree.COMMAND_SUBSCRIBE, embertree.COMMAND_UNSUBSCRIBE, embertree.COMMAND_GETDIRECTORY, embertree.COMMAND_INVOKE} {
		cmd := embertree.NewCommand(n)
		flags := int(cmd.GetContent().(*embertree.CommandContents).GetFieldFlags())
		d := newElem("cmd", false, n)
		d.Has, d.F = true, []Field{{0, "int", num8(flags)}}
		emit(E{"op": "flags", "n": n, "v": flags})
		encodeOne("el", []*Elem{d}, cmd)
	}
	for i, f := range []embertree.FieldFlags{embertree.SparseFieldFlags, embertree.ALLFieldFlags, embertree.DefaultFieldFlags, embertree.IdentifierFieldFlags,
		embertree.DescriptionFieldFlags, embertree.TreeFieldFlags, embertree.ValueFieldFlags, embertree.ConnectionsFieldFlags} {
		emit(E{"op": "flag", "name": []string{"sparse", "all", "default", "identifier", "description", "tree", "value", "connections"}[i], "v": int(f)})
	}
}

func matrixSets() {
	for _, v := range []int{-128, -3, -2, -1, 0, 1, 2, 3, 4, 5, 127} {
		for _, o := range []int{0, 1, 2} {
			for _, what := range []string{"type", "mode", "op", "disp", "new", "newq", "newc"} {
				var before, after int
				var err errors.Error
				p := attempt("set "+what, func() {
					switch what {
					case "type":
						mc, _ := embertree.NewMatrixContent(embertree.MatrixType(o), 1)
						before = o
						err = mc.SetType(embertree.MatrixType(v))
						a, _ := mc.GetType()
						after = int(a)
					case "mode":
						mc, _ := embertree.NewMatrixContent(1, embertree.MatrixMode(o%2))
						before = o % 2
						err = mc.SetMode(embertree.MatrixMode(v))
						a, _ := mc.GetMode()
						after = int(a)
					case "op":
						c := embertree.Connection{}
						c.SetOperation(o)
						before = o
						err = c.SetOperation(v)
						after = int(c.GetOperation())
					case "disp":
						c := embertree.Connection{}
						c.SetDisposition(o)
						before = o
						err = c.SetDisposition(v)
						after = int(c.GetDisposition())
					case "new":
						e, e2 := embertree.NewMatrix(5, embertree.MatrixType(v), embertree.MatrixMode(o))
						err = e2
						if err == nil && e == nil {
							panic("no matrix and no error")
						}
						before, after = o, v
						if err == nil {
							a, _ := e.GetContent().(*embertree.MatrixContent).GetType()
							b, _ := e.GetContent().(*embertree.MatrixContent).GetMode()
							before, after = int(b), int(a)
						}
					case "newq":
						e := embertree.NewQualifiedMatrix(oidOf([]int{1, 2}), embertree.MatrixType(v), embertree.MatrixMode(o))
						if e == nil {
							err = errors.New("nil")
						}
						before, after = o, v
						if e != nil {
							a, _ := e.GetContent().(*embertree.MatrixContent).GetType()
							b, _ := e.GetContent().(*embertree.MatrixContent).GetMode()
							before, after = int(b), int(a)
						}
					case "newc":
						c, e2 := embertree.NewMatrixContent(embertree.MatrixType(v), embertree.MatrixMode(o))
						err = e2
						before, after = o, v
						if err == nil {
							a, _ := c.GetType()
							b, _ := c.GetMode()
							before, after = int(b), int(a)
						}
					}
				})
				point()
				emit(E{"op": "mset", "what": what, "v": v, "o": o, "before": before, "after": after, "err": err != nil, "panic": p})
			}
		}
	}
}

func suiteMatrix() {
	glowCases()
	matrixSets()
	// matrices of the size of real routers
	for i := 0; i < pick(4, 30); i++ {
		g := defaultGen()
		m := g.elemOf("matrix", 0, i%2 == 0, rnum())
		n := 100 + rng.Intn(300)
		m.Tg, m.Sr, m.Cn = []int{}, []int{}, []Conn{}
		for j := 0; j < n; j++ {
			m.Tg = append(m.Tg, j)
			m.Sr = append(m.Sr, n+j)
			m.Cn = append(m.Cn, Conn{T: j, S: []int{n + rng.Intn(n)}, O: 0, D: rng.Intn(2)})
		}
		encodeEls("msg", []*Elem{m})
		for _, e := range []*enc{mixedEnc(true), mixedEnc(false)} {
			dec("el", e.elem(m))
		}
		c := Conn{T: rint32(), S: roid(120, 420), O: rng.Intn(3), D: rng.Intn(4)}
		encodeOne("conn", c, buildConn(c))
		dec("conn", mixedEnc(true).conn(c))
	}
	for i := 0; i < pick(120, 1500); i++ {
		g := defaultGen()
		g.fill = 1 + rng.Intn(4)
		if i%20 == 7 {
			g.many = 5 + rng.Intn(60)
		}
		m := g.elemOf("matrix", 0, false, rnum())
		m.Tg = distinct(rng.Intn(12), func() int { return rint32() })
		m.Sr = distinct(rng.Intn(12), func() int { return rint32() })
		m.Cn = g.conns(rng.Intn(10))
		encodeEls("msg", []*Elem{m})
		q := *m
		q.Q, q.P = true, roid(1, 5)
		encodeEls("el", []*Elem{&q})
		r := g.elemOf("matrix", 1, i%2 == 0, rnum())
		r.Cn = g.conns(rng.Intn(6))
		for _, e := range []*enc{mixedEnc(true), mixedEnc(false)} {
			dec("msg", e.msg([]*Elem{r}))
			dec("el", e.elem(r))
			dec("matrix", e.contents("matrix", g.fields("matrix")))
			c := Conn{T: rint32(), S: roid(0, 12), O: rng.Intn(3), D: rng.Intn(4)}
			dec("conn", e.conn(c))
			encodeOne("conn", c, buildConn(c))
			// refused: operation or disposition out of range
			x := c
			if rng.Intn(2) == 0 {
				x.O = []int{-1, 3, 4, 127, 255, 256, -256, 258, 1 << 30}[rng.Intn(9)]
			} else {
				x.D = []int{-1, 4, 5, 127, 255, 256, -256, 259, 1 << 30}[rng.Intn(9)]
			}
			dec("conn", e.conn(x))
		}
		l := embertree.NewLabel(oidOf(roid(0, 6)), string(bytesOf(g.rstr())))
		encodeOne("label", E{"p": ints(l.BasePath), "d": B(l.Description)}, l)
		n := rint32()
		encodeOne("sig", E{"k": "target", "n": n}, embertree.NewTarget(int32(n)))
		encodeOne("sig", E{"k": "source", "n": n}, embertree.NewSource(int32(n)))
	}
	// only matrices have signals and connections
	for _, k := range []string{"node", "param", "func", "cmd"} {
		e := build(defaultGen().elemOf(k, 0, false, 3))
		w := &asn1.ASNWriter{}
		ok := 0
		p := attempt("signals of a "+k, func() {
			for _, err := range []errors.Error{e.SetTargets(nil), e.SetSources(nil), e.SetConnections(nil), e.EncodeTargets(w), e.EncodeSources(w), e.EncodeConnections(w)} {
				if err == nil {
					ok++
				}
			}
			if _, err := e.GetTargets(); err == nil {
				ok++
			}
			if _, err := e.GetSources(); err == nil {
				ok++
			}
			if _, err := e.GetConnections(); err == nil {
				ok++
			}
		})
		emit(E{"op": "nomatrix", "k": k, "accepted": ok, "out": B(drain(w)), "panic": p})
	}
}

func invArgs(as []Field) []*embertree.ContentParameter {
	l := []*embertree.ContentParameter{}
	for _, a := range as {
		cp := embertree.NewContentParameter()
		setObj(cp, a)
		l = append(l, cp)
	}
	return l
}

func typed(as []Field) []E {
	l := []E{}
	for _, a := range as {
		l = append(l, E{"t": a.T, "v": a.V})
	}
	return l
}

func suiteFunctions() {
	glowCases()
	for i := 0; i < pick(200, 2500); i++ {
		g := defaultGen()
		g.fill = 1 + rng.Intn(4)
		if i%40 == 7 {
			g.many = 30 + rng.Intn(100)
		}
		f := g.elemOf("func", 0, false, rnum())
		encodeEls("msg", []*Elem{f})
		q := *f
		q.Q, q.P = true, roid(1, 5)
		encodeEls("el", []*Elem{&q})
		as := g.args(g.many + rng.Intn(6))
		id := rint32()
		encodeOne("inv", E{"id": id, "a": typed(as)}, embertree.NewInvocation(id, invArgs(as)))
		for _, e := range []*enc{mixedEnc(true), mixedEnc(false)} {
			dec("func", e.contents("func", g.fields("func")))
			dec("inv", e.invocation(rint32(), rng.Intn(4) > 0, g.args(g.many+rng.Intn(5)), rng.Intn(4) > 0))
			dec("tuple", e.tuple(rng.Intn(256), g.rstr()))
			dec("tuple", e.wrap(app(21), e.wrap(ctx(0), e.intv(num8(rng.Intn(8))))))
			// a field that an invocation does not have
			x := ctx([]int{2, 3, 4, 9, 31, 0}[rng.Intn(5)])
			parts := e.shuffle([][]byte{e.wrap(ctx(0), e.intv(num8(id))), e.wrap(x, e.intv(num8(1)))})
			dec("inv", e.wrap(app(22), parts...))
		}
		tp := embertree.NewArgument(embertree.ParameterType(rng.Intn(8)), string(bytesOf(g.rstr())))
		encodeOne("tuple", E{"t": int(tp.Type), "n": B(tp.Name)}, tp)
	}
}

// suiteCutValues reads every prefix of values of every type.
func suiteCutValues() {
	g := &gen{strMax: 12}
	for i := 0; i < pick(60, 1000); i++ {
		for _, e := range []*enc{plainEnc(), mixedEnc(true)} {
			for kind, b := range map[string][]byte{"int": e.intv(num8(rint32())), "int64": e.intv(rint64()), "bool": e.value("bool", g.value("bool")),
				"real": e.value("real", rreal()), "str": e.value("str", g.rstr()), "bits": e.value("buf", g.rstr()), "oid": e.value("oid", roid(0, 4))} {
				for n := 0; n <= len(b); n++ {
					in := b[:n]
					read(asn1.NewASNReader(append([]byte{}, in...)), kind, 13, in)
				}
			}
		}
	}
}

func init() { suites["C07v"] = suiteCutValues }
