// The driver runs the library through its public interface and logs what it
// does, one event per line, for the trace specifications in /verif/spec.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// E is one event.
type E map[string]interface{}

// B are bytes; they are logged as a list of numbers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = append(out, fmt.Sprint(x)...)
	}
	return append(out, ']'), nil
}

func (b *B) UnmarshalJSON(data []byte) error {
	var l []int
	if err := json.Unmarshal(data, &l); err != nil {
		return err
	}
	*b = make([]byte, len(l))
	for i, x := range l {
		(*b)[i] = byte(x)
	}
	return nil
}

var (
	outLock  sync.Mutex
	outFile  *bufio.Writer
	events   int
	sinceRes int
	rng      *rand.Rand
	thorough bool
	casesArg string

	doingLock sync.Mutex
	doing     string
	doingFrom time.Time
)

const hangAfter = 30 * time.Second

func emitLocked(e E) {
	data, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	outFile.Write(data)
	outFile.WriteByte('\n')
	events++
}

func emit(e E) {
	if e["op"] != "fatal" {
		l := current
		if byGoroutine != nil {
			l = byGoroutine[goroutine()]
		}
		if l != nil {
			l.emit(e)
			return
		}
	}
	outLock.Lock()
	defer outLock.Unlock()
	emitLocked(e)
}

// reset starts a new segment, independent of what came before.
func reset(e E) {
	if e == nil {
		e = E{}
	}
	e["op"] = "reset"
	emit(e)
}

// point is reset for suites whose events do not depend on each other: it
// splits the trace every now and then.
func point() {
	if sinceRes%200 == 0 {
		reset(nil)
	}
	sinceRes++
}

func flush() {
	outLock.Lock()
	outFile.Flush()
	outLock.Unlock()
}

// attempt runs f and returns "" or the panic it ended with. What is being
// done is watched: if it does not end, the trace ends with an event that says so.
func attempt(what string, f func()) (panicked string) {
	doingLock.Lock()
	doing, doingFrom = what, time.Now()
	doingLock.Unlock()
	defer func() {
		doingLock.Lock()
		doing = ""
		doingLock.Unlock()
		if r := recover(); r != nil {
			panicked = strings.ReplaceAll(fmt.Sprint(r), "\"", "'")
			if panicked == "" {
				panicked = "panic"
			}
			if os.Getenv("DRIVER_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	return ""
}

func watch() {
	for {
		time.Sleep(200 * time.Millisecond)
		doingLock.Lock()
		what, from := doing, doingFrom
		doingLock.Unlock()
		if what != "" && time.Since(from) > hangAfter {
			emit(E{"op": "fatal", "why": "no end of: " + what})
			flush()
			os.Exit(0)
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// cases calls f with each case of the given file.
func cases(f func(raw json.RawMessage)) {
	if casesArg == "" {
		return
	}
	file, err := os.Open(casesArg)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	in := bufio.NewReaderSize(file, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			f(json.RawMessage(line))
		}
		if err != nil {
			return
		}
	}
}

// lockedSource can be used by goroutines at the same time.
type lockedSource struct {
	lock sync.Mutex
	s    rand.Source64
}

func (l *lockedSource) Int63() int64 {
	l.lock.Lock()
	defer l.lock.Unlock()
	return l.s.Int63()
}

func (l *lockedSource) Uint64() uint64 {
	l.lock.Lock()
	defer l.lock.Unlock()
	return l.s.Uint64()
}

func (l *lockedSource) Seed(seed int64) { l.s.Seed(seed) }

// pick is how many random cases to make.
func pick(quick int, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

var suites = map[string]func(){}

func main() {
	suite := flag.String("suite", "", "property")
	seed := flag.Int64("seed", 1, "seed of all random choices")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "trace")
	flag.StringVar(&casesArg, "cases", "", "cases generated from the specification")
	flag.Parse()
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	outFile = bufio.NewWriterSize(f, 1<<20)
	rng = rand.New(&lockedSource{s: rand.NewSource(*seed).(rand.Source64)})
	thorough = *tier == "thorough"
	run := suites[*suite]
	if run == nil {
		fmt.Fprintln(os.Stderr, "no suite", *suite)
		os.Exit(3)
	}
	debug.SetMaxStack(256 << 20)
	go watch()
	run()
	flush()
	f.Close()
	fmt.Println("events", events)
}
