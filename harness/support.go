package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
)

func init() {
	suites["C28"] = suiteLogger
	suites["C29"] = suiteErrors
	suites["C30"] = suiteStack
}

type part struct {
	P string `json:"p"`
	S []int  `json:"s"`
	N int    `json:"n"`
}

var fixedParts = []part{{"lit", list([]byte("x ")), 0}, {"d", []int{}, -12}, {"s", list([]byte("%d")), 0}}

func randParts() []part {
	ps := []part{}
	for n := rng.Intn(5); n > 0; n-- {
		text := list([]byte([]string{"", "a", "%d", "100%", "\n", "é", "long text with spaces", "%!s"}[rng.Intn(8)]))
		switch rng.Intn(3) {
		case 0:
			ps = append(ps, part{"lit", text, 0})
		case 1:
			ps = append(ps, part{"s", text, 0})
		default:
			ps = append(ps, part{"d", []int{}, rint32() / 2})
		}
	}
	return ps
}

// format gives the parts as a format and its arguments.
func format(ps []part) (string, []interface{}) {
	f, as := "", []interface{}{}
	for _, p := range ps {
		switch p.P {
		case "lit":
			for _, c := range bytesOf(p.S) {
				if c == '%' {
					f += "%"
				}
				f += string([]byte{c})
			}
		case "s":
			f += "%s"
			as = append(as, string(bytesOf(p.S)))
		case "d":
			f += "%d"
			as = append(as, p.N)
		}
	}
	return f, as
}

// items gives the parts as arguments only.
func items(ps []part) []interface{} {
	as := []interface{}{}
	for _, p := range ps {
		if p.P == "d" {
			as = append(as, p.N)
		} else {
			as = append(as, string(bytesOf(p.S)))
		}
	}
	return as
}

// printed runs f and returns what it writes on the standard output.
func printed(f func()) []byte {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	got := make(chan []byte)
	go func() {
		b, _ := io.ReadAll(r)
		got <- b
	}()
	func() {
		defer func() {
			os.Stdout = old
			w.Close()
		}()
		f()
	}()
	b := <-got
	r.Close()
	return b
}

type histStep struct {
	Do  string `json:"do"`
	Way string `json:"way"`
	N   int    `json:"n"`
}

func logWith(l logger.Logger, way string, ps []part) {
	var out []byte
	p := attempt("log", func() {
		out = printed(func() {
			f, as := format(ps)
			switch way {
			case "error":
				l.Error(errors.New(f, as...))
			case "warn":
				l.Warn(f, as...)
			case "info":
				l.Info(f, as...)
			case "debug":
				l.Debug(f, as...)
			case "debugln":
				l.Debugln(items(ps)...)
			}
		})
	})
	emit(E{"op": "log", "way": way, "parts": ps, "out": B(out), "panic": p})
}

func newLogger(kind string, level int) logger.Logger {
	var l logger.Logger
	is := 0
	p := attempt("new logger", func() {
		if kind == "console" {
			l = logger.NewConsoleLogger(logger.LogLevel(level))
		} else {
			l = logger.NewNullLogger()
		}
		is = int(l.GetLogLevel())
	})
	emit(E{"op": "logger", "k": kind, "level": level, "is": is, "panic": p})
	return l
}

func setLevel(l logger.Logger, level int) {
	is := 0
	p := attempt("SetLogLevel", func() {
		l.SetLogLevel(logger.LogLevel(level))
		is = int(l.GetLogLevel())
	})
	emit(E{"op": "level", "to": level, "is": is, "panic": p})
}

func levels() {
	emit(E{"op": "levels", "panic": "", "is": E{"error": int(logger.ErrorLevel), "warn": int(logger.WarnLevel), "info": int(logger.InfoLevel), "debug": int(logger.DebugLevel)}})
}

func histories(f func([]histStep)) {
	cases(func(raw json.RawMessage) {
		var h []histStep
		if err := json.Unmarshal(raw, &h); err != nil {
			panic(err)
		}
		f(h)
	})
}

var logWays = []string{"error", "warn", "info", "debug", "debugln"}

func suiteLogger() {
	histories(func(h []histStep) {
		reset(nil)
		levels()
		var l logger.Logger
		for _, s := range h {
			switch s.Do {
			case "new":
				l = newLogger(s.Way, s.N)
			case "level":
				setLevel(l, s.N)
			case "log":
				logWith(l, s.Way, fixedParts)
			}
		}
	})
	for i := 0; i < pick(100, 2000); i++ {
		reset(nil)
		levels()
		var ls []logger.Logger
		for n := 1 + rng.Intn(3); n > 0; n-- {
			ls = append(ls, newLogger([]string{"console", "console", "console", "null"}[rng.Intn(4)], rng.Intn(9)))
		}
		for n := 5 + rng.Intn(10); n > 0; n-- {
			k := rng.Intn(len(ls))
			emit(E{"op": "with", "n": k + 1, "panic": ""})
			if rng.Intn(3) == 0 {
				setLevel(ls[k], rng.Intn(9)*(1+rng.Intn(2)*27))
			} else {
				logWith(ls[k], logWays[rng.Intn(5)], randParts())
			}
		}
	}
	// the levels by their names
	reset(nil)
	levels()
	for _, lv := range []logger.LogLevel{logger.ErrorLevel, logger.WarnLevel, logger.InfoLevel, logger.DebugLevel} {
		l := newLogger("console", int(lv))
		for _, w := range logWays {
			logWith(l, w, fixedParts)
		}
	}
}

// ---- errors ----

func here() string {
	_, file, line, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", file, line)
}

type ownError struct{ text string }

func (e *ownError) Error() string { return e.text }

type errs struct {
	l []errors.Error
}

func (x *errs) all() []E {
	out := []E{}
	for _, e := range x.l {
		out = append(out, E{"msg": B(e.Message.Error()), "trail": append([]string{}, e.Stack...)})
	}
	return out
}

func (x *errs) do(s histStep, ps []part) {
	ev := E{"op": s.Do, "of": s.N, "none": s.Way == "nil", "same": true, "parts": ps, "here": ""}
	var e errors.Error
	p := attempt(s.Do, func() {
		f, as := format(ps)
		switch {
		case s.Do == "make":
			e, ev["here"] = errors.New(f, as...), here()
		case s.Do == "wrap" && s.Way == "nil":
			e = errors.NewError(nil)
		case s.Do == "wrap":
			own := &ownError{fmt.Sprintf(f, as...)}
			e, ev["here"] = errors.NewError(own), here()
			ev["same"] = e != nil && e.Message == error(own)
		case s.Way == "nil":
			e = errors.Update(nil)
		default:
			e, ev["here"] = errors.Update(x.l[s.N-1]), here()
			x.l[s.N-1] = e
		}
		if s.Do != "pass" && e != nil {
			x.l = append(x.l, e)
		}
	})
	ev["nothing"], ev["panic"], ev["is"] = e == nil, p, []E{}
	if p == "" && !(s.Do == "pass" && s.Way != "nil" && e == nil) {
		ev["is"] = x.all()
	}
	emit(ev)
}

func suiteErrors() {
	histories(func(h []histStep) {
		reset(nil)
		x := &errs{}
		for _, s := range h[1:] {
			x.do(s, fixedParts)
		}
	})
	for i := 0; i < pick(200, 4000); i++ {
		reset(nil)
		x := &errs{}
		for n := 4 + rng.Intn(20); n > 0; n-- {
			way := ""
			if rng.Intn(8) == 0 {
				way = "nil"
			}
			switch {
			case rng.Intn(3) > 0 && len(x.l) > 0:
				x.do(histStep{"pass", way, 1 + rng.Intn(len(x.l))}, []part{})
			case rng.Intn(2) == 0:
				x.do(histStep{"make", "", 0}, randParts())
			default:
				x.do(histStep{"wrap", way, 0}, randParts())
			}
		}
	}
	suiteLongTrails()
}

// One error that is passed on many times, and a message of any length.
func suiteLongTrails() {
	for i := 0; i < pick(4, 40); i++ {
		reset(nil)
		x := &errs{}
		x.do(histStep{[]string{"make", "wrap"}[i%2], "", 0}, []part{})
		for n := pick(70, 300); n > 0; n-- {
			x.do(histStep{"pass", "", 1}, []part{})
		}
	}
}

// ---- stack ----

type pusher interface {
	Push(interface{})
	Pop() interface{}
}

func suiteStack() {
	ptrs := map[*int]int{}
	fresh := 0
	text := func(v interface{}) string {
		switch x := v.(type) {
		case nil:
			return "nil"
		case *int:
			return fmt.Sprint("ptr ", ptrs[x])
		}
		return fmt.Sprintf("%T %v", v, v)
	}
	value := func(kind string) interface{} {
		fresh++
		switch kind {
		case "nil":
			return nil
		case "str":
			return fmt.Sprint(fresh)
		case "ptr":
			p := new(int)
			ptrs[p] = fresh
			return p
		case "slice":
			return []int{fresh}
		case "same":
			return 7
		}
		return fresh
	}
	var ss []pusher
	start := func(n int) {
		reset(nil)
		ss = nil
		for ; n > 0; n-- {
			ss = append(ss, asn1.NewStack())
			emit(E{"op": "stack", "panic": ""})
		}
	}
	push := func(j int, v interface{}) {
		p := attempt("Push", func() { ss[j-1].Push(v) })
		emit(E{"op": "push", "of": j, "v": text(v), "panic": p})
	}
	pop := func(j int) {
		var v interface{}
		p := attempt("Pop", func() { v = ss[j-1].Pop() })
		emit(E{"op": "pop", "of": j, "v": text(v), "panic": p})
	}
	histories(func(h []histStep) {
		start(2)
		for _, s := range h[1:] {
			if s.Do == "push" {
				push(s.N, value(s.Way))
			} else {
				pop(s.N)
			}
		}
		for j := 1; j <= 2; j++ { // what is left
			for k := 0; k < 3; k++ {
				pop(j)
			}
		}
	})
	for i := 0; i < pick(100, 2000); i++ {
		start(2)
		for n := 10 + rng.Intn(80); n > 0; n-- {
			j := 1 + rng.Intn(2)
			if rng.Intn(5) < 3 {
				push(j, value([]string{"int", "nil", "str", "ptr", "slice", "same"}[rng.Intn(6)]))
			} else {
				pop(j)
			}
		}
	}
	start(1)
	for i := 0; i < 3000; i++ {
		push(1, i)
	}
	for i := 0; i < 3001; i++ {
		pop(1)
	}
}
