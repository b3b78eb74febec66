package main

import (
	"encoding/json"
	"math"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
)

func init() { suites["C13"] = suiteContents }

type slot struct {
	O int `json:"o"`
	K int `json:"k"`
}

type objs struct {
	k []string
	c []embertree.EmberContents
	p []*embertree.ContentParameter
}

func (o *objs) all() [][]Field {
	out := [][]Field{}
	for i, k := range o.k {
		if k != "cp" {
			out = append(out, getters(o.c[i]))
			continue
		}
		fs := []Field{}
		if t, v, ok := valueOf(o.p[i]); ok {
			fs = append(fs, Field{0, t, v})
		}
		out = append(out, fs)
	}
	return out
}

// norm gives a value the form in which it is logged when it is read.
func norm(f Field) Field {
	if f.T == "real" {
		f.V = realBits(math.Float64frombits(uint64(int64Of(f.V))))
	}
	return f
}

func (o *objs) add(k string) {
	f := []Field{}
	p := attempt("new "+k, func() {
		var c embertree.EmberContents
		var cp *embertree.ContentParameter
		switch k {
		case "cp":
			cp = embertree.NewContentParameter()
		case "matrix":
			t, m := rng.Intn(3), rng.Intn(2)
			c, _ = embertree.NewMatrixContent(embertree.MatrixType(t), embertree.MatrixMode(m))
			f = []Field{{2, "int", num8(t)}, {3, "int", num8(m)}}
		default:
			c = kindContents[k]()
			if k == "cmd" {
				f = []Field{{0, "int", num8(0)}}
			}
		}
		o.k, o.c, o.p = append(o.k, k), append(o.c, c), append(o.p, cp)
	})
	ev := E{"op": "new", "k": k, "f": f, "panic": p, "all": [][]Field{}}
	if p == "" {
		ev["all"] = o.all()
	}
	emit(ev)
}

// object is the value object of a slot, if it can be had.
func (o *objs) object(s slot) *embertree.ContentParameter {
	if o.p[s.O-1] != nil {
		return o.p[s.O-1]
	}
	if c, ok := o.c[s.O-1].(*embertree.ParameterContents); ok {
		switch s.K {
		case 2:
			return c.GetValueObject()
		case 3:
			return c.GetMinimumObject()
		case 4:
			return c.GetMaximumObject()
		case 12:
			return c.GetDefaultObject()
		}
	}
	return nil
}

func (o *objs) set(to slot, f Field) {
	f.K = to.K
	if f.V == nil {
		f.V = []int{}
	}
	ok := true
	p := attempt("set", func() {
		if cp := o.object(to); cp != nil {
			setObj(cp, f)
		} else {
			ok = setField(o.c[to.O-1], f)
		}
	})
	f = norm(f)
	emit(E{"op": "set", "to": to, "t": f.T, "v": f.V, "err": !ok, "panic": p, "all": o.all()})
}

func (o *objs) copy(from slot, to slot) {
	var err errors.Error
	p := attempt("Set", func() { err = o.object(to).Set(o.object(from)) })
	emit(E{"op": "copy", "from": from, "to": to, "err": err != nil, "panic": p, "all": o.all()})
}

var typeNames = map[embertree.ValueType]string{embertree.ValueTypeUnset: "unset", embertree.ValueTypeString: "str", embertree.ValueTypeBool: "bool",
	embertree.ValueTypeInteger: "int", embertree.ValueTypeBuffer: "buf", embertree.ValueTypeReal: "real", embertree.ValueTypeOID: "oid"}

func (o *objs) ask(of slot) {
	for _, t := range []string{"str", "bool", "int", "buf", "real", "oid"} {
		var err errors.Error
		v := []int{}
		var cp *embertree.ContentParameter
		is, set := "", false
		p := attempt("get "+t, func() {
			cp = o.object(of)
			is, set = typeNames[cp.GetType()], cp.IsSet()
			switch t {
			case "str":
				x, e := cp.GetString()
				v, err = list([]byte(x)), e
			case "bool":
				x, e := cp.GetBool()
				v, err = b01(x), e
			case "int":
				x, e := cp.GetInt()
				v, err = list(i8(x)), e
			case "buf":
				x, e := cp.GetBuffer()
				v, err = list(x), e
			case "real":
				x, e := cp.GetReal()
				v, err = realBits(x), e
			case "oid":
				x, e := cp.GetRelativeOID()
				v, err = ints(x), e
			}
		})
		if err != nil {
			v = []int{}
		}
		emit(E{"op": "ask", "of": of, "t": t, "ok": err == nil, "v": v, "is": is, "set": set, "panic": p})
	}
}

func (g *gen) anyValue() Field {
	t := append(anyTypes, "oid")[rng.Intn(6)]
	return Field{0, t, g.value(t)}
}

func suiteContents() {
	cases(func(raw json.RawMessage) {
		var ss []struct {
			Do   string `json:"do"`
			From slot   `json:"from"`
			To   slot   `json:"to"`
			T    string `json:"t"`
			V    []int  `json:"v"`
		}
		if err := json.Unmarshal(raw, &ss); err != nil {
			panic(err)
		}
		reset(nil)
		o := &objs{}
		o.add("cp")
		o.add("cp")
		o.add("param")
		for i, s := range ss {
			if s.Do == "set" {
				o.set(s.To, Field{0, s.T, s.V})
			} else {
				o.copy(s.From, s.To)
			}
			if i == len(ss)-1 {
				o.ask(s.To)
			}
		}
	})
	kinds := []string{"node", "param", "matrix", "func", "cmd"}
	for i := 0; i < pick(150, 3000); i++ {
		reset(nil)
		g := &gen{strMax: 8, fill: 4}
		o := &objs{}
		o.add(kinds[i%5])
		o.add(kinds[rng.Intn(5)])
		o.add("param")
		o.add("cp")
		o.add("cp")
		slots := []slot{{3, 2}, {3, 3}, {3, 4}, {3, 12}, {4, 0}, {5, 0}}
		for n := 12 + rng.Intn(12); n > 0; n-- {
			switch rng.Intn(5) {
			case 0:
				o.copy(slots[rng.Intn(6)], slots[rng.Intn(6)])
			case 1:
				o.set(slots[rng.Intn(6)], g.anyValue())
			case 2:
				o.ask(slots[rng.Intn(6)])
			default: // a field through its setter
				x := rng.Intn(3)
				fs := g.fields(o.k[x])
				f := fs[rng.Intn(len(fs))]
				if o.k[x] == "param" && f.K >= 15 || o.k[x] == "matrix" && (f.K == 10 || f.K == 12 || f.T == "int" && f.K == 8) {
					continue // no setter
				}
				o.set(slot{x + 1, f.K}, f)
			}
		}
		for _, s := range slots {
			o.ask(s)
		}
	}
}
