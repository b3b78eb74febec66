package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"sync"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
)

func init() {
	suites["C14"] = func() { treeSuite("C14") }
	suites["C15"] = func() { treeSuite("C15") }
	suites["C16"] = suitePaths
	suites["C17"] = func() { treeSuite("C17") }
	suites["C17r"] = suiteListenersTogether
	suites["C18"] = func() { treeSuite("C18") }
	suites["C34"] = func() { treeSuite("C34") }
}

// world is one tree with its listeners, and what is known of it.
type world struct {
	root  *embertree.RootElement
	ids   map[*embertree.Element]int
	at    map[string]*embertree.Element
	pos   [][]int
	ear   map[int]*ear
	react map[int][]step
	heard []E
	kept  []asn1.RelativeOID
	was   [][]int
	// the elements are given loggers
	logged bool
	log    logger.Logger
	// other lanes may go on within calls
	turns bool
}

// ear is a listener. It does what it was told to do when it is called.
type ear struct {
	n int
	w *world
}

func newWorld() *world {
	reset(nil)
	w := &world{root: embertree.NewTree(), ids: map[*embertree.Element]int{}, at: map[string]*embertree.Element{}, ear: map[int]*ear{}, react: map[int][]step{}, logged: rng.Intn(2) == 0, log: loud{}}
	withLogger(w.root)
	return w
}

func (w *world) id(e *embertree.Element) int {
	if e == nil {
		return -1
	}
	if _, ok := w.ids[e]; !ok {
		w.ids[e] = len(w.ids) + 1
	}
	return w.ids[e]
}

func (w *world) listener(n int) *ear {
	if w.ear[n] == nil {
		w.ear[n] = &ear{n, w}
	}
	return w.ear[n]
}

func (l *ear) Receive(x interface{}, err errors.Error) {
	call := E{"do": "call", "l": l.n, "id": -2, "g": []Field{}, "kids": []int{}, "err": err != nil}
	kids := []int{}
	switch e := x.(type) {
	case *embertree.RootElement:
		if e == l.w.root {
			call["id"] = 0
		}
		for n := range e.RootElementCollection {
			kids = append(kids, n)
		}
	case *embertree.Element:
		call["id"] = l.w.id(e)
		if c := e.GetContent(); c != nil {
			call["g"] = getters(c)
		}
		for n := range e.Children {
			kids = append(kids, n)
		}
	}
	sort.Ints(kids)
	call["kids"] = kids
	l.w.heard = append(l.w.heard, call)
	if l.w.turns {
		pause()
	}
	for _, s := range l.w.react[l.n] {
		if id, ok := l.w.listen(s); ok {
			l.w.heard = append(l.w.heard, E{"do": map[string]string{"listen": "add", "unlisten": "remove"}[s.Do], "l": s.L, "id": id, "g": []Field{}, "kids": []int{}, "err": false})
		}
	}
}

func key(p []int) string { return fmt.Sprint(p) }

// listen adds or removes a listener; false if there is no such element.
func (w *world) listen(s step) (int, bool) {
	if len(s.Pos) == 0 {
		if s.Do == "listen" {
			w.root.AddListener(w.listener(s.L))
		} else {
			w.root.RemoveListener(w.listener(s.L))
		}
		return 0, true
	}
	e := w.at[key(s.Pos)]
	if e == nil {
		return 0, false
	}
	if s.Do == "listen" {
		e.AddListener(w.listener(s.L))
	} else {
		e.RemoveListener(w.listener(s.L))
	}
	return w.id(e), true
}

func (w *world) dump() []E {
	out := []E{}
	w.at = map[string]*embertree.Element{}
	w.pos = nil
	var walk func(e *embertree.Element, p []int)
	walk = func(e *embertree.Element, p []int) {
		s := seenElem(e)
		if len(p) > 0 && p[len(p)-1] != e.Number {
			s.K += " under another number"
		}
		out = append(out, E{"pos": p, "id": w.id(e), "k": s.K, "q": s.Q, "path": ints(e.GetPath()), "has": s.Has, "g": s.G, "tg": s.Tg, "sr": s.Sr, "cn": s.Cn})
		if w.logged {
			withThis(e, w.log)
		}
		w.at[key(p)] = e
		w.pos = append(w.pos, p)
		keys := []int{}
		for n := range e.Children {
			keys = append(keys, n)
		}
		sort.Ints(keys)
		for _, n := range keys {
			walk(e.Children[n], append(append([]int{}, p...), n))
		}
	}
	keys := []int{}
	for n := range w.root.RootElementCollection {
		keys = append(keys, n)
	}
	sort.Ints(keys)
	for _, n := range keys {
		walk(w.root.RootElementCollection[n], []int{n})
	}
	return out
}

// has asks the root for one of the listeners.
func (w *world) has() {
	ls := []int{}
	for l := range w.ear {
		ls = append(ls, l)
	}
	if len(ls) == 0 {
		return
	}
	sort.Ints(ls)
	l := ls[rng.Intn(len(ls))]
	is := false
	p := attempt("HasListner", func() { is = w.root.HasListner(w.ear[l]) })
	emit(E{"op": "has", "l": l, "is": is, "panic": p})
}

type step struct {
	Do   string  `json:"do"`
	Els  []*Elem `json:"els"`
	L    int     `json:"l"`
	Pos  []int   `json:"pos"`
	Form string  `json:"form"`
	What string  `json:"what"` // of a reaction
	F    []Field `json:"f"`
	L2   int     `json:"l2"`
}

func (w *world) step(s step, e *enc) {
	switch s.Do {
	case "msg":
		in := e.msg(s.Els)
		if s.What == "early" {
			in = in[:rng.Intn(len(in))]
		}
		w.heard = []E{}
		var err errors.Error
		p := attempt("Decode", func() { err = w.root.Decode(asn1.NewASNReader(append([]byte{}, in...))) })
		ev := E{"op": "msg", "in": B(in), "err": err != nil, "panic": p, "calls": w.heard}
		if p == "" {
			p = attempt("dump", func() { ev["dump"] = w.dump() })
		}
		ev["panic"] = p
		if p != "" {
			ev["dump"] = []E{}
		}
		emit(ev)
		if p == "" {
			w.has()
		}
	case "nowhere":
		in := e.wrap(app(0), e.wrap(app(11), e.wrap(ctx(0), e.elem(s.Els[0]))))
		w.heard = []E{}
		var dump []E
		var err errors.Error
		p := attempt("Decode", func() {
			err = w.root.Decode(asn1.NewASNReader(append([]byte{}, in...)))
			dump = w.dump()
		})
		if p != "" {
			dump = []E{}
		}
		emit(E{"op": "nowhere", "in": B(in), "err": err != nil, "panic": p, "calls": w.heard, "dump": dump})
	case "listen", "unlisten":
		if id, ok := w.listen(s); ok {
			emit(E{"op": s.Do, "l": s.L, "id": id})
			w.has()
		}
	case "react":
		w.react[s.L] = append(w.react[s.L], step{Do: s.What, L: s.L2, Pos: s.Pos})
	case "create", "assign", "again", "change", "grow":
		w.edit(s)
	case "getdir":
		at := w.at[key(s.Pos)]
		if len(s.Pos) > 0 && at == nil {
			return
		}
		var out []byte
		var err errors.Error
		var listener embertree.Listener
		if s.L > 0 {
			listener = w.listener(s.L)
		}
		var dump []E
		id := 0
		if at != nil {
			id = w.id(at)
		}
		p := attempt("GetDirectoryMsg", func() {
			var m *embertree.RootElement
			switch {
			case at == nil:
				m, err = w.root.GetDirectoryMsg(listener)
			case s.Form == "qualified":
				m = at.GetQualifiedDirectoryMsg(listener)
			default:
				m, err = at.GetDirectoryMsg(listener)
			}
			if err == nil {
				wr := &asn1.ASNWriter{}
				err = m.Encode(wr)
				out = drain(wr)
			}
			dump = w.dump()
		})
		if dump == nil {
			dump = []E{}
		}
		emit(E{"op": "getdir", "id": id, "l": s.L, "form": s.Form, "out": B(out), "err": err != nil, "panic": p, "dump": dump})
	case "find":
		var par, el *embertree.Element
		p := attempt("GetElementByPath", func() { par, el = w.root.GetElementByPath(oidOf(s.Pos)) })
		emit(E{"op": "find", "path": append([]int{}, s.Pos...), "el": w.id(el), "par": w.id(par), "panic": p})
	case "show":
		text := ""
		p := attempt("ToString", func() { text = w.root.ToString() })
		emit(E{"op": "show", "text": B(text), "panic": p})
	case "enc":
		var out []byte
		var err errors.Error
		p := attempt("Encode", func() {
			wr := &asn1.ASNWriter{}
			err = w.root.Encode(wr)
			out = drain(wr)
		})
		emit(E{"op": "enc", "out": B(out), "err": err != nil, "panic": p})
	default:
		panic("step " + s.Do)
	}
}

// edit does to an element of the tree what only the program can do.
func (w *world) edit(s step) {
	at := w.at[key(s.Pos)]
	if at == nil && (s.Do != "grow" || len(s.Pos) > 0) || (s.Do == "change" || s.Do == "again") && at.GetContent() == nil {
		return
	}
	if len(s.Els) > 0 {
		s.Els = clone(s.Els)
	}
	pos := append([]int{}, s.Pos...)
	ev := E{"op": "edit", "what": s.Do, "pos": pos, "d": []*Elem{}, "f": []Field{}, "none": false, "of": "", "same": true, "err": false, "dump": []E{}}
	w.heard = []E{}
	done := true
	p := attempt(s.Do, func() {
		switch s.Do {
		case "create":
			c := at.CreateContent()
			ev["none"] = c == nil
			ev["same"] = c == nil || c == at.GetContent()
			ev["of"] = ofKind(c)
		case "assign":
			from := build(s.Els[0])
			c := from.GetContent()
			if done = c != nil; !done {
				return
			}
			ev["err"] = at.SetContents(c) != nil
			ev["same"] = at.GetContent() == c
		case "again": // the contents that it has
			c := at.GetContent()
			ev["err"] = at.SetContents(c) != nil
			ev["same"] = at.GetContent() == c
		case "change":
			c := at.GetContent().(embertree.EmberContents)
			done = setField(c, s.F[0])
			ev["same"] = at.GetContent() == c
		case "grow":
			e := build(s.Els[0])
			if at == nil {
				w.root.AddElement(e)
			} else {
				ev["err"] = at.AddChild(e) != nil
			}
		}
	})
	if !done {
		return
	}
	if s.Do == "change" {
		ev["f"] = s.F
	} else if len(s.Els) > 0 {
		ev["d"] = s.Els
	}
	if p == "" {
		p = attempt("dump", func() { ev["dump"] = w.dump() })
	}
	ev["calls"], ev["panic"] = w.heard, p
	emit(ev)
	if p == "" {
		w.has()
	}
}

// ofKind is the kind of element that contents are for.
func ofKind(c interface{}) string {
	switch c.(type) {
	case *embertree.NodeContents:
		return "node"
	case *embertree.ParameterContents:
		return "param"
	case *embertree.MatrixContent:
		return "matrix"
	case *embertree.FunctionContents:
		return "func"
	case *embertree.CommandContents:
		return "cmd"
	}
	return ""
}

func clone(els []*Elem) (out []*Elem) {
	data, err := json.Marshal(els)
	if err == nil {
		err = json.Unmarshal(data, &out)
	}
	if err != nil {
		panic(err)
	}
	return
}

// anyEdit makes an edit that suits the tree.
func (w *world) anyEdit(g *gen) step {
	s := step{Do: []string{"create", "assign", "assign", "change", "change", "change", "again", "grow", "grow"}[rng.Intn(9)], Pos: w.anyPos()}
	switch s.Do {
	case "assign":
		s.Els = []*Elem{g.elemOf(w.kind(s.Pos), 0, false, 1)}
	case "change":
		k := w.kind(s.Pos)
		fs := g.fields(k)
		for len(fs) == 0 {
			fs = g.fields(k)
		}
		f := fs[rng.Intn(len(fs))]
		if k == "matrix" && (f.K == 2 || f.K == 3) {
			f = Field{0, "str", []int{110}}
		}
		s.F = []Field{f}
	case "grow":
		if rng.Intn(4) == 0 {
			s.Pos = nil
		}
		s.Els = []*Elem{g.elem(rng.Intn(3), false, smallNum())}
		if p := w.anyPos(); len(p) > 0 && rng.Intn(2) == 0 { // in the place of one like it
			s.Pos = p[:len(p)-1]
			s.Els = []*Elem{g.elemOf(w.kind(p), 2, false, p[len(p)-1])}
		}
	}
	return s
}

func scripts(f func([]step)) {
	cases(func(raw json.RawMessage) {
		var s []step
		if err := json.Unmarshal(raw, &s); err != nil {
			panic(err)
		}
		f(s)
	})
}

func nested(p []int, kinds func([]int) string, d *Elem) *Elem {
	// d at the end of the chain of bare elements that leads to it
	d.Q, d.P = false, p[len(p)-1:]
	for n := len(p) - 1; n > 0; n-- {
		up := newElem(kinds(p[:n]), false, p[n-1])
		up.Ch = []*Elem{d}
		d = up
	}
	return d
}

func (w *world) kind(p []int) string {
	if e := w.at[key(p)]; e != nil {
		return kindOfTag[e.GetTag()]
	}
	return "node"
}

func (w *world) anyPos() []int {
	if len(w.pos) == 0 {
		return nil
	}
	return w.pos[rng.Intn(len(w.pos))]
}

func smallNum() int {
	if rng.Intn(8) == 0 {
		return rnum()
	}
	return 1 + rng.Intn(5)
}

// message makes a message that suits the tree: updates and additions in both
// forms, conflicts, and elements whose parent is missing.
func (w *world) message(g *gen) []*Elem {
	els := []*Elem{}
	used := map[int]bool{}
	if rng.Intn(5) == 0 { // the same number below several parents
		num := smallNum()
		for n := 2 + rng.Intn(3); n > 0; n-- {
			if p := w.anyPos(); len(p) > 0 {
				els = append(els, g.elem(0, true, append(append([]int{}, p...), num)...))
			}
		}
		return els
	}
	for n := 1 + rng.Intn(3); n > 0; n-- {
		p := append([]int{}, w.anyPos()...)
		what := rng.Intn(10)
		var d *Elem
		switch {
		case len(p) == 0 || what == 0: // at the root
			d = g.elem(rng.Intn(3), rng.Intn(3) == 0, smallNum())
		case what <= 4: // update
			d = g.elemOf(w.kind(p), rng.Intn(2), false, p...)
		case what <= 6: // add below
			p = append(p, smallNum())
			d = g.elem(rng.Intn(2), false, p...)
		case what == 7: // of another kind
			d = g.elem(rng.Intn(2), false, p...)
		case what == 8: // parent missing
			p = append(p, 90+rng.Intn(5))
			for k := rng.Intn(3); k >= 0; k-- {
				p = append(p, smallNum())
			}
			d = g.elem(rng.Intn(2), true, p...)
			els = append(els, d)
			continue
		default: // many children, some there already
			d = g.elemOf(w.kind(p), 2, false, p...)
		}
		if len(d.P) > 1 {
			if rng.Intn(2) == 0 {
				d.Q = true
			} else {
				d = nested(p, w.kind, d)
			}
		}
		if !d.Q || len(d.P) == 1 {
			if used[d.num()] && rng.Intn(3) > 0 { // the same element twice is rare
				continue
			}
			used[d.num()] = true
		}
		els = append(els, d)
	}
	return els
}

func encs(i int) *enc {
	switch i % 3 {
	case 0:
		return plainEnc()
	case 1:
		return indefEnc()
	}
	return mixedEnc(true)
}

func treeScenario(prop string, i int) {
	w := newWorld()
	if current != nil {
		w.turns, w.log = true, turning{}
		withThis(w.root, w.log)
	}
	g := &gen{strMax: 6, maxKids: 3, noCmd: true, fill: 1 + rng.Intn(3)}
	for m := 3 + rng.Intn(5); m > 0 && len(w.pos) < 60; m-- {
		if prop == "C17" {
			ears, k := 4, rng.Intn(4)
			if i%4 == 0 { // many listeners of few elements
				ears, k = 16, 5+rng.Intn(20)
			}
			for ; k > 0; k-- {
				do := "listen"
				if rng.Intn(3) == 0 {
					do = "unlisten"
				}
				pos := w.anyPos()
				if rng.Intn(3) == 0 || ears > 4 && rng.Intn(3) > 0 {
					pos = nil
				}
				w.step(step{Do: do, L: 1 + rng.Intn(ears), Pos: pos}, nil)
				if rng.Intn(4) == 0 {
					do = "listen"
					if rng.Intn(2) == 0 {
						do = "unlisten"
					}
					w.step(step{Do: "react", L: 1 + rng.Intn(ears), What: do, L2: 1 + rng.Intn(ears+1), Pos: pos}, nil)
				}
			}
		}
		if (prop == "C14" || prop == "C17") && rng.Intn(3) == 0 {
			w.step(step{Do: "msg", Els: w.message(g), What: "early"}, []*enc{plainEnc(), indefEnc(), indefEnc()}[rng.Intn(3)])
		}
		w.step(step{Do: "msg", Els: w.message(g)}, encs(i+m))
		switch prop {
		case "C14":
			if m == 1 {
				w.step(step{Do: "enc"}, nil)
			}
		case "C34":
			for k := rng.Intn(5); k > 0; k-- {
				w.step(w.anyEdit(g), nil)
				switch rng.Intn(6) {
				case 0:
					w.step(step{Do: []string{"listen", "listen", "unlisten"}[rng.Intn(3)], L: 1 + rng.Intn(4), Pos: w.anyPos()}, nil)
				case 1:
					w.step(step{Do: "find", Pos: append([]int{}, w.anyPos()...)}, nil)
				case 2:
					w.step(step{Do: "getdir", Pos: w.anyPos(), L: rng.Intn(4), Form: []string{"any", "any", "qualified"}[rng.Intn(3)]}, nil)
				case 3:
					w.step(step{Do: "enc"}, nil)
				}
			}
		case "C15":
			if rng.Intn(4) == 0 {
				d := g.elem(rng.Intn(2), true, 1)
				d.P = []int{}
				w.step(step{Do: "nowhere", Els: []*Elem{d}}, encs(i+m))
			}
			for k := 0; k < 6; k++ {
				p := append([]int{}, w.anyPos()...)
				switch rng.Intn(4) {
				case 0:
					p = append(p, smallNum())
				case 1:
					p = append(p, smallNum(), smallNum())
				case 2:
					if len(p) > 0 {
						p[rng.Intn(len(p))] = smallNum()
					}
				}
				w.step(step{Do: "find", Pos: p}, nil)
			}
		case "C18":
			for k := 0; k < 4; k++ {
				w.step(step{Do: "getdir", Pos: w.anyPos(), L: rng.Intn(4), Form: []string{"any", "any", "qualified"}[rng.Intn(3)]}, nil)
			}
			w.step(step{Do: "getdir", L: rng.Intn(4), Form: "any"}, nil)
			if m == 1 {
				w.step(step{Do: "enc"}, nil)
			}
		}
	}
}

func treeSuite(prop string) {
	n := 0
	scripts(func(ss []step) {
		w := newWorld()
		for _, s := range ss {
			w.step(s, encs(n))
		}
		n++
	})
	for i := 0; i < pick(120, 1500); i++ {
		treeScenario(prop, i)
	}
}

// ---- C16: objects and their paths ----

type objects struct {
	els  []*embertree.Element
	num  []int
	par  []int
	kept []asn1.RelativeOID
	was  [][]int
}

func (o *objects) add(num int, q bool, p []int) {
	var e *embertree.Element
	kind := rng.Intn(3)
	if q {
		num = p[len(p)-1]
		path := append(make(asn1.RelativeOID, 0, len(p)+rng.Intn(4)), oidOf(p)...)
		switch kind {
		case 0:
			e = embertree.NewQualifiedNode(path)
		case 1:
			e = embertree.NewQualifiedParameter(path)
		default:
			e = embertree.NewQualifiedMatrix(path, 0, 0)
		}
	} else {
		switch kind {
		case 0:
			e = embertree.NewNode(num)
		case 1:
			e = embertree.NewParameter(num)
		default:
			e, _ = embertree.NewMatrix(num, 0, 0)
		}
		p = []int{}
	}
	o.els, o.num, o.par = append(o.els, e), append(o.num, num), append(o.par, 0)
	emit(E{"op": "obj", "num": num, "q": q, "p": p})
}

func (o *objects) detach(i int) {
	if o.par[i-1] > 0 {
		up := o.els[o.par[i-1]-1]
		if up.Children[o.num[i-1]] == o.els[i-1] {
			delete(up.Children, o.num[i-1])
		}
	}
}

func (o *objects) adopt(i int, par int) {
	o.detach(i)
	p := attempt("AddChild", func() { o.els[par-1].AddChild(o.els[i-1]) })
	o.par[i-1] = par
	emit(E{"op": "adopt", "id": i, "par": par, "panic": p})
}

func (o *objects) orphan(i int) {
	o.detach(i)
	p := attempt("SetParent", func() { o.els[i-1].SetParent(nil) })
	o.par[i-1] = 0
	emit(E{"op": "orphan", "id": i, "panic": p})
}

func (o *objects) below(i int, par int) bool {
	for ; par != 0; par = o.par[par-1] {
		if par == i {
			return true
		}
	}
	return false
}

// paths asks for the paths of the given objects, and for what those that
// were returned before have become.
func (o *objects) paths(order []int) {
	seen, old := []E{}, []E{}
	p := attempt("GetPath", func() {
		for _, i := range order {
			path := o.els[i-1].GetPath()
			seen = append(seen, E{"id": i, "path": ints(path)})
			o.kept, o.was = append(o.kept, path), append(o.was, ints(path))
		}
		for j := range o.kept {
			old = append(old, E{"was": o.was[j], "is": ints(o.kept[j])})
		}
		if len(o.kept) > 40 {
			o.kept, o.was = o.kept[20:], o.was[20:]
		}
	})
	emit(E{"op": "paths", "seen": seen, "old": old, "panic": p})
}

func (o *objects) all() []int {
	l := rng.Perm(len(o.els))
	for i := range l {
		l[i]++
	}
	return l
}

func suitePaths() {
	cases(func(raw json.RawMessage) {
		var c struct {
			Objs []struct {
				Num int   `json:"num"`
				Q   bool  `json:"q"`
				P   []int `json:"p"`
			} `json:"objs"`
			Steps []struct {
				Do  string `json:"do"`
				ID  int    `json:"id"`
				Par int    `json:"par"`
			} `json:"steps"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		reset(nil)
		o := &objects{}
		for _, x := range c.Objs {
			o.add(x.Num, x.Q, x.P)
		}
		for i, s := range c.Steps {
			if s.Do == "adopt" {
				o.adopt(s.ID, s.Par)
			} else {
				o.orphan(s.ID)
			}
			if i == len(c.Steps)-1 {
				o.paths(o.all())
			} else if rng.Intn(2) == 0 {
				o.paths([]int{1 + rng.Intn(len(o.els))})
			}
		}
	})
	for i := 0; i < pick(150, 2500); i++ {
		reset(nil)
		o := &objects{}
		n := 4 + rng.Intn(16)
		for j, x := range distinct(n, rnum) {
			if j == 0 || rng.Intn(8) > 0 {
				o.add(x, false, nil)
			} else {
				o.add(0, true, roid(1, 6))
			}
			if j > 0 && rng.Intn(8) > 0 { // mostly deep, with siblings
				par := len(o.els) - 1
				if rng.Intn(3) == 0 {
					par = 1 + rng.Intn(len(o.els)-1)
				}
				o.adopt(len(o.els), par)
			}
		}
		for m := 3 + rng.Intn(8); m > 0; m-- {
			a, b := 1+rng.Intn(len(o.els)), 1+rng.Intn(len(o.els))
			switch {
			case rng.Intn(6) == 0:
				o.orphan(a)
			case rng.Intn(2) == 0 && !o.below(a, b) && o.els[b-1].Children[o.num[a-1]] == nil:
				o.adopt(a, b)
			}
			o.paths(o.all())
		}
	}
}

// ---- C17: listeners come and go in several goroutines ----

type counter struct {
	lock sync.Mutex
	n    int
}

func (c *counter) Receive(interface{}, errors.Error) {
	c.lock.Lock()
	c.n++
	c.lock.Unlock()
}

func (c *counter) count() int {
	c.lock.Lock()
	defer c.lock.Unlock()
	return c.n
}

func suiteListenersTogether() {
	for i := 0; i < pick(12, 120); i++ {
		reset(nil)
		root := embertree.NewTree()
		g := &gen{strMax: 6, maxKids: 3, noCmd: true, fill: 2}
		up := newElem("node", false, 1)
		up.Ch = []*Elem{g.elemOf("param", 0, false, 1)}
		decode := func() {
			if err := root.Decode(asn1.NewASNReader(plainEnc().msg([]*Elem{up}))); err != nil {
				panic("message refused")
			}
		}
		decode()
		_, el := root.GetElementByPath(oidOf([]int{1, 1}))
		top := root.GetElementByNumber(1)
		updates := 20 + rng.Intn(30)
		still := []*counter{{}, {}, {}} // there all the time
		gone := []*counter{{}, {}, {}}  // removed before
		none := []*counter{{}, {}, {}}  // come and go
		nodes := []embertree.ListeningNode{root, top, el}
		for k, n := range nodes {
			n.AddListener(gone[k])
			n.AddListener(still[k])
			n.RemoveListener(gone[k])
		}
		var wg sync.WaitGroup
		stop := make(chan bool)
		for k := range nodes {
			for j := 0; j < 2; j++ {
				wg.Add(1)
				go func(n embertree.ListeningNode, l *counter) {
					defer wg.Done()
					for {
						select {
						case <-stop:
							return
						default:
							n.AddListener(l)
							n.RemoveListener(l)
						}
					}
				}(nodes[k], none[k])
			}
		}
		p := attempt("Decode with listeners coming and going", func() {
			for u := 0; u < updates; u++ {
				decode()
			}
		})
		close(stop)
		wg.Wait()
		before := [3]int{}
		for k, n := range nodes {
			n.RemoveListener(none[k])
			before[k] = none[k].count()
		}
		p2 := attempt("Decode", decode)
		if p == "" {
			p = p2
		}
		for k := range nodes {
			emit(E{"op": "together", "panic": p, "node": k, "updates": updates + 1, "still": still[k].count(), "gone": gone[k].count(),
				"moving": before[k], "after": none[k].count() - before[k]})
		}
	}
}
