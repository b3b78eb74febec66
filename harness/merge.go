package main

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
)

type hearing struct{}

func (hearing) Receive(interface{}, errors.Error) {}

// used does with the tree what a consumer does.
func used(root *embertree.RootElement) {
	var walk func(e *embertree.Element, depth int)
	walk = func(e *embertree.Element, depth int) {
		if depth > 50 {
			return
		}
		e.AddListener(hearing{})
		e.GetPath()
		if m, err := e.GetDirectoryMsg(hearing{}); err == nil {
			m.Encode(&asn1.ASNWriter{})
		}
		e.GetQualifiedDirectoryMsg(nil).Encode(&asn1.ASNWriter{})
		root.GetElementByPath(e.GetPath())
		seenElem(e)
		for _, c := range e.Children {
			walk(c, depth+1)
		}
	}
	root.AddListener(hearing{})
	for _, e := range root.RootElementCollection {
		walk(e, 0)
	}
	root.ToString()
	root.Encode(&asn1.ASNWriter{})
}

// suiteMerge decodes changed messages into trees that hold something, and uses what comes of it.
func suiteMerge() {
	for i := 0; i < pick(400, 10000); i++ {
		g := &gen{strMax: 6, maxKids: 3, fill: 1 + rng.Intn(4)}
		w := newWorld()
		reset(nil)
		for n := 1 + rng.Intn(3); n > 0; n-- {
			in := mixedEnc(true).msg(w.message(g))
			w.root.Decode(asn1.NewASNReader(in))
			w.dump()
		}
		for n := 0; n < 6; n++ {
			in := mixedEnc(rng.Intn(2) == 0).msg(w.message(g))
			if rng.Intn(4) > 0 {
				in = mutate(in)
			}
			var err errors.Error
			p := attempt("decoding into a tree", func() {
				err = w.root.Decode(asn1.NewASNReader(append([]byte{}, in...)))
				used(w.root)
				w.dump()
			})
			point()
			emit(E{"op": "merged", "in": B(in), "err": err != nil, "panic": p})
			if p != "" {
				break
			}
		}
	}
}
