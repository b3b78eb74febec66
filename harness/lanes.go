package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"strings"
	"sync"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

// C33: objects that have nothing to do with each other, at the same time. What each
// of them does is logged as if it were alone, and judged so.

func init() {
	suites["C33s"] = suiteDecodersSideBySide
	suites["C33t"] = suiteTreesSideBySide
	suites["C33r"] = suiteReadersSideBySide
	suites["C33b"] = suiteValuesSideBySide
	suites["C33c"] = suiteClientsSideBySide
	suites["C33p"] = suiteAtOnce
	suites["C33g"] = suiteMessagesAtOnce
	suites["C33f"] = suiteFramesAtOnce
}

// lane is a scenario that takes turns with others: after each event another may go on.
type lane struct {
	name   string
	events [][]byte
	turn   chan bool
	over   bool
}

var (
	current *lane // the one whose turn it is
	back    = make(chan bool)

	laneCount int
)

// libraryRuns says whether there is a goroutine of the library that this lane has
// started: it has inherited its label. What has none may be of any.
func (l *lane) libraryRuns() bool {
	var text bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&text, 1)
	for _, g := range strings.Split(text.String(), "\n\n") {
		if strings.Contains(g, "emberlib/socket.") && (strings.Contains(g, `"`+l.name+`"`) || !strings.Contains(g, "# labels:")) {
			return true
		}
	}
	return false
}

// pause lets others go on, in the midst of what this lane does.
func pause() {
	if l := current; l != nil && rng.Intn(3) == 0 {
		back <- true
		<-l.turn
	}
}

// turning is a logger for objects of one lane only, in whose goroutine all is done:
// another may go on whenever something is logged.
type turning struct{ loud }

func (turning) Warn(format string, a ...interface{})  { pause() }
func (turning) Info(format string, a ...interface{})  { pause() }
func (turning) Debug(format string, a ...interface{}) { pause() }
func (turning) Debugln(a ...interface{})              { pause() }

func (l *lane) emit(e E) {
	data, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	l.events = append(l.events, data)
	if byGoroutine != nil {
		return
	}
	back <- true
	<-l.turn
}

// sideBySide runs the scenarios in turns, first in the order given, and then logs
// one after the other.
func sideBySide(order []int, fs ...func()) {
	var ls, live []*lane
	for _, f := range fs {
		laneCount++
		l := &lane{name: fmt.Sprint("lane", laneCount), turn: make(chan bool)}
		ls, live = append(ls, l), append(live, l)
		go func(f func()) {
			<-l.turn
			pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("lane", l.name)))
			f()
			l.over = true
			back <- true
		}(f)
	}
	for len(live) > 0 {
		k := rng.Intn(len(live))
		if len(order) > 0 {
			l := ls[order[0]]
			order = order[1:]
			if l.over {
				continue
			}
			for k = 0; live[k] != l; k++ {
			}
		}
		current = live[k]
		current.turn <- true
		<-back
		if current.over {
			live = append(live[:k:k], live[k+1:]...)
		}
	}
	current = nil
	for _, l := range ls {
		logAll(l.events)
	}
	if givenUp > 3 {
		flush()
		os.Exit(0)
	}
}

func logAll(evs [][]byte) {
	if sinceRes = 0; len(evs) == 0 || !bytes.Contains(evs[0], []byte(`"op":"reset"`)) {
		reset(nil)
	}
	outLock.Lock()
	defer outLock.Unlock()
	for _, e := range evs {
		outFile.Write(e)
		outFile.WriteByte('\n')
		events++
	}
}

// together runs the scenarios in goroutines of their own, all at the same time, and
// then logs one after the other. What they do, they do themselves.
func together(fs ...func()) {
	byGoroutine = map[string]*lane{}
	var ls []*lane
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, f := range fs {
		l := &lane{}
		ls = append(ls, l)
		ready := make(chan bool)
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			byGoroutine[goroutine()] = l
			ready <- true
			<-start
			f()
		}(f)
		<-ready
	}
	close(start)
	wg.Wait()
	byGoroutine = nil
	for _, l := range ls {
		logAll(l.events)
	}
}

var byGoroutine map[string]*lane

func goroutine() string {
	var b [32]byte
	return string(bytes.Fields(b[:runtime.Stack(b[:], false)])[1])
}

func some(n int, fs ...func()) []func() {
	out := []func(){}
	for ; n > 0; n-- {
		out = append(out, fs[rng.Intn(len(fs))])
	}
	return out
}

func suiteDecodersSideBySide() {
	cases(func(raw json.RawMessage) {
		var c struct {
			Pieces [][]B   `json:"pieces"`
			Sent   [][]Out `json:"sent"`
			Order  []int   `json:"order"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		order := []int{0, 1}
		for _, n := range c.Order {
			order = append(order, n-1)
		}
		fs := []func(){}
		for k := range c.Pieces {
			k := k
			fs = append(fs, func() {
				f := newFeeder()
				for _, b := range c.Pieces[k] {
					f.feed(b)
				}
				f.done(c.Sent[k])
			})
		}
		sideBySide(order, fs...)
	})
	for i := 0; i < pick(60, 1500); i++ {
		sideBySide(nil, some(2+rng.Intn(3), streamScenario, corruptScenario, packetScenario)...)
	}
}

func suiteTreesSideBySide() {
	for i := 0; i < pick(40, 800); i++ {
		fs := []func(){}
		for n := 2 + rng.Intn(3); n > 0; n-- {
			prop, i := []string{"C14", "C15", "C17", "C18"}[rng.Intn(4)], rng.Intn(12)
			fs = append(fs, func() { treeScenario(prop, i) })
		}
		sideBySide(nil, fs...)
	}
}

func suiteAtOnce() {
	for i := 0; i < pick(30, 600); i++ {
		fs := []func(){}
		for n := 4; n > 0; n-- {
			prop, i := []string{"C14", "C15", "C17", "C18"}[rng.Intn(4)], rng.Intn(12)
			fs = append(fs, func() { treeScenario(prop, i) })
		}
		together(fs...)
	}
}

func suiteReadersSideBySide() {
	one := func() {
		data := randSequence(2 + rng.Intn(4))
		if len(data) > 200 {
			data = data[:200]
		}
		explore(data, 10+rng.Intn(30))
	}
	for i := 0; i < pick(200, 4000); i++ {
		sideBySide(nil, some(2+rng.Intn(2), one)...)
	}
}

func suiteValuesSideBySide() {
	one := func() (string, []int, uint8) {
		switch rng.Intn(5) {
		case 0:
			return "int64", rint64(), 2
		case 1:
			return "real", list(f8(randReal())), 9
		case 2:
			return "str", list(randBytes(rng.Intn(30))), 12
		case 3:
			return "oid", roid(0, 8), 13
		}
		return "buf", list(randBytes(rng.Intn(30))), 3
	}
	for i := 0; i < pick(60, 1500); i++ {
		sideBySide(nil, some(2+rng.Intn(2), func() { mixed(8, one) })...)
	}
}

func suiteClientsSideBySide() {
	scenario := func() {
		w := newClientWorld()
		w.enc = []func() *enc{plainEnc, indefEnc}[rng.Intn(2)]
		w.random([]string{"C23", "C24", "C24", "C27"}[rng.Intn(4)])
		w.end()
	}
	// a timeout is that of its client
	hasty := func() {
		w := newClientWorld()
		w.random("C25")
		w.end()
	}
	calm := func() {
		w := newClientWorld()
		w.boot(w.w.message(&gen{strMax: 6, maxKids: 3, noCmd: true, fill: 1}))
		for n := 1 + rng.Intn(4); n > 0; n-- {
			w.step(cstep{Do: "get", L: n, Pos: w.w.anyPos()})
			w.step(cstep{Do: "wait", N: 100})
		}
		w.end()
	}
	for i := 0; i < partly(pick(60, 1200)); i++ {
		if i%6 == 0 {
			sideBySide(nil, hasty, calm)
			continue
		}
		sideBySide(nil, some(2+rng.Intn(2), scenario)...)
	}
}

// atOnce runs f in several goroutines, each with its number, and logs what they return.
func atOnce(n int, f func(k int) []E) {
	got := make([][]E, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			got[k] = f(k)
		}(k)
	}
	wg.Wait()
	for _, evs := range got {
		reset(nil)
		for _, e := range evs {
			emit(e)
		}
	}
}

func suiteMessagesAtOnce() {
	for i := 0; i < pick(12, 200); i++ {
		const n = 6
		var els [n][][]*Elem
		var ins [n][][]byte
		g := defaultGen()
		for k := 0; k < n; k++ {
			for j := 0; j < 8; j++ {
				g.strMax = []int{6, 20, 400}[rng.Intn(3)]
				els[k] = append(els[k], g.msg(1+rng.Intn(3), rng.Intn(3)))
				ins[k] = append(ins[k], encs(rng.Intn(3)).msg(g.msg(1+rng.Intn(3), rng.Intn(3))))
			}
		}
		atOnce(n, func(k int) (out []E) {
			for j := range els[k] {
				root := embertree.NewRoot()
				p := attempt("build", func() {
					for _, d := range els[k][j] {
						root.AddElement(build(d))
					}
				})
				if p != "" {
					return append(out, E{"op": "enc", "what": "msg", "d": els[k][j], "out": B{}, "err": false, "panic": p})
				}
				out = append(out, encoded("msg", els[k][j], root))
				out = append(out, decode("msg", ins[k][j]).event("dec", "msg", ins[k][j]))
			}
			return
		})
	}
}

func suiteFramesAtOnce() {
	for i := 0; i < pick(12, 200); i++ {
		const n = 6
		var ms [n][][]byte
		for k := 0; k < n; k++ {
			for j := 0; j < 6; j++ {
				ms[k] = append(ms[k], payload([]int{rng.Intn(20), rng.Intn(300), rng.Intn(3000)}[rng.Intn(3)]))
			}
		}
		atOnce(n, func(k int) (out []E) {
			outs, sent := []Out{}, []Out{}
			keep := func(kind string, d []byte) errors.Error {
				outs = append(outs, Out{kind, append(B{}, d...)})
				return nil
			}
			d := socket.NewS101Decoder(
				func([]byte) errors.Error { return keep("kreq", nil) },
				func([]byte) errors.Error { return keep("kres", nil) },
				func(m []byte) errors.Error { return keep("msg", m) },
				func(errors.Error) { keep("err", nil) })
			for _, m := range ms[k] {
				fs, frames, size := [][]byte{}, []B{}, 0
				p := attempt("EncodeMessage", func() {
					l := socket.EncodeMessage(m)
					size = l.Size()
					for j := 0; j < size; j++ {
						f, err := l.GetBytesAt(j)
						if err != nil {
							panic("a frame is missing")
						}
						fs, frames = append(fs, f), append(frames, f)
					}
				})
				out = append(out, E{"op": "enc", "data": B(m), "frames": frames, "same": true, "panic": p})
				b := bytes.Join(fs, nil)
				outs = []Out{}
				p = attempt("DecodeBuffer", func() { d.DecodeBuffer(len(b), b) })
				out = append(out, E{"op": "feed", "in": B(b), "outs": outs, "panic": p})
				sent = append(sent, Out{"msg", m})
			}
			return append(out, E{"op": "done", "sent": sent})
		})
	}
}
