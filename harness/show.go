package main

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
)

func init() {
	suites["C32"] = suiteShow
}

// legible replaces what could not be told from the structure of a text: texts
// that begin or end with a space, or contain the end of a line.
func legible(els []*Elem) []*Elem {
	letters := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ KLMNOPQRSTUVWXYZ0123456789 .-_/+{}[]:,%\"\\"
	for _, d := range els {
		fs := []Field{}
		for _, f := range d.F {
			if d.K == "param" && (f.K == 5 || f.K == 13) {
				continue
			}
			if f.T == "str" {
				v := []int{}
				for range f.V {
					v = append(v, int(letters[rng.Intn(len(letters))]))
				}
				if len(v) > 0 {
					v[0] = 'A' + rng.Intn(26)
					v[len(v)-1] = 'a' + rng.Intn(26)
				}
				f.V = v
			}
			if f.T == "real" && rng.Intn(6) > 0 {
				f.V = list(f8(float64(rng.Intn(1<<18)-1<<17) / 64))
			}
			fs = append(fs, f)
		}
		d.F = fs
		legible(d.Ch)
	}
	return els
}

func showValue(f *Field) {
	cp := embertree.NewContentParameter()
	e := E{"op": "value", "t": "unset", "v": []int{}}
	ty := E{"op": "type", "t": "unset"}
	if f != nil {
		e["t"], e["v"], ty["t"] = f.T, append([]int{}, f.V...), f.T
		setObj(cp, *f)
	}
	text := ""
	e["panic"] = attempt("ToString", func() { text = cp.ToString() })
	e["text"] = B(text)
	emit(e)
	ty["text"] = B(embertree.ValueType2String(cp.GetType()))
	emit(ty)
}

func suiteShow() {
	n := 0
	scripts(func(ss []step) {
		w := newWorld()
		for _, s := range ss {
			w.step(s, []*enc{plainEnc(), indefEnc()}[n%2])
		}
		n++
	})
	for i := 0; i < pick(120, 1500); i++ {
		w := newWorld()
		g := &gen{strMax: 20, maxKids: 3, noCmd: true, fill: 1 + rng.Intn(3)}
		for m := 2 + rng.Intn(4); m > 0 && len(w.pos) < 40; m-- {
			w.step(step{Do: "msg", Els: legible(w.message(g))}, []*enc{plainEnc(), indefEnc(), mixedEnc(true)}[rng.Intn(3)])
			w.step(step{Do: "show"}, nil)
		}
	}
	// long paths, and elements far below
	for i := 0; i < pick(3, 20); i++ {
		w := newWorld()
		p := distinct(40+rng.Intn(100), func() int { return rng.Intn(1000) })
		g := &gen{strMax: 20, noCmd: true, fill: 2}
		var els []*Elem
		for d := 1; d <= len(p); d++ {
			els = append(els, g.elemOf("node", 0, true, p[:d]...))
		}
		w.step(step{Do: "msg", Els: legible(els)}, plainEnc())
		w.step(step{Do: "show"}, nil)
	}
	// many children
	for i := 0; i < pick(1, 4); i++ {
		w := newWorld()
		top := newElem("node", false, 1)
		for k := 1400 + rng.Intn(100); k > 0; k-- {
			top.Ch = append(top.Ch, newElem([]string{"node", "param", "func"}[rng.Intn(3)], false, k))
		}
		w.step(step{Do: "msg", Els: []*Elem{top}}, plainEnc())
		w.step(step{Do: "show"}, nil)
	}
	reset(nil)
	g := &gen{strMax: 300}
	showValue(nil)
	for i := 0; i < pick(400, 4000); i++ {
		f := g.anyValue()
		if f.T == "real" && rng.Intn(4) > 0 {
			f.V = list(f8(float64(rng.Intn(1<<18)-1<<17) / 64))
		}
		showValue(&f)
	}
	for i := 0; i < pick(100, 1000); i++ {
		p := roid(0, 8)
		if i%10 == 9 {
			p = roid(20, 300)
		}
		text := ""
		pn := attempt("Path2String", func() { text = embertree.Path2String(asn1.RelativeOID(oidOf(p))) })
		emit(E{"op": "path", "p": p, "text": B(text), "panic": pn})
	}
	for v := -3; v < 12; v++ {
		cc := embertree.CommandContents{}
		cc.SetFieldFlags(embertree.FieldFlags(v))
		text := ""
		pn := attempt("ToString", func() { text = cc.ToString() })
		emit(E{"op": "flags", "v": num8(v), "text": B(text), "panic": pn})
	}
}
