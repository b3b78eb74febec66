package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

func init() {
	for _, c := range []string{"C23", "C24", "C25", "C27"} {
		c := c
		suites[c] = func() { clientSuite(c) }
	}
	suites["C23t"] = suiteTogether
	suites["C26"] = suiteWalks
	suites["C31"] = suiteClientStreams
	suites["C27r"] = suiteReconnect
	suites["C27c"] = suiteRivals
}

// The work of a suite can be divided among several processes.
var whichPart = flag.Int("part", 0, "which part")
var parts = flag.Int("parts", 1, "of how many")

func partly(n int) int { return (n + *parts - 1) / *parts }

var epoch = time.Now()

func now() int { return int(time.Since(epoch) / time.Millisecond) }

const patience = 5 * time.Second

// until waits for cond, and says whether it came to hold.
func until(limit time.Duration, cond func() bool) bool {
	end := time.Now().Add(limit)
	for pause := 20 * time.Microsecond; !cond(); {
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(pause)
		if pause < 2*time.Millisecond {
			pause *= 2
		}
	}
	return true
}

// libraryRuns tells whether a goroutine is inside of the client.
func libraryRuns() bool {
	if current != nil {
		return current.libraryRuns()
	}
	buf := make([]byte, 1<<20)
	return strings.Contains(string(buf[:runtime.Stack(buf, true)]), "emberlib/socket.")
}

// ---- the provider ----

type provider struct {
	ln    net.Listener
	port  uint16
	lock  sync.Mutex
	conns []*peer
}

// peer is one connection as the provider sees it.
type peer struct {
	c       net.Conn
	lock    sync.Mutex
	partial []byte
	frames  []B
	payload []byte
	asked   [][]int // positions of the requests
	resps   int     // keep-alive responses
	eof     bool
	reqs    int // keep-alive requests sent
	told    int // of which have been logged
	onAsk   func(p []int)
}

func newProvider() *provider {
	ln, err := net.Listen("tcp", home+":0")
	if err != nil {
		panic(err)
	}
	p := &provider{ln: ln, port: uint16(ln.Addr().(*net.TCPAddr).Port)}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			x := &peer{c: c}
			p.lock.Lock()
			p.conns = append(p.conns, x)
			p.lock.Unlock()
			go x.read()
		}
	}()
	return p
}

func (p *provider) count() int {
	p.lock.Lock()
	defer p.lock.Unlock()
	return len(p.conns)
}

func (p *provider) last() *peer {
	p.lock.Lock()
	defer p.lock.Unlock()
	return p.conns[len(p.conns)-1]
}

func (x *peer) read() {
	buf := make([]byte, 65536)
	for {
		n, err := x.c.Read(buf)
		x.lock.Lock()
		for _, b := range buf[:n] {
			x.partial = append(x.partial, b)
			if b == 0xff {
				x.frame(x.partial)
				x.partial = nil
			}
		}
		if err != nil {
			x.eof = true
			x.lock.Unlock()
			return
		}
		x.lock.Unlock()
	}
}

func (x *peer) frame(f []byte) {
	x.frames = append(x.frames, f)
	body := []byte{}
	for i := 1; i < len(f)-1; i++ {
		if f[i] == 0xfd && i < len(f)-2 {
			i++
			body = append(body, f[i]^0x20)
		} else {
			body = append(body, f[i])
		}
	}
	if len(body) < 6 {
		return
	}
	body = body[:len(body)-2]
	switch {
	case body[2] == 2:
		x.resps++
	case body[2] == 0 && len(body) >= 9:
		if body[4]&0x80 != 0 {
			x.payload = nil
		}
		x.payload = append(x.payload, body[9:]...)
		if body[4]&0x40 != 0 {
			p := askedFor(x.payload)
			x.asked = append(x.asked, p)
			if x.onAsk != nil {
				x.onAsk(p)
			}
		}
	}
}

func (x *peer) send(b []byte) { x.c.Write(b) }

func (x *peer) keepAlives(n int) {
	x.lock.Lock()
	x.reqs += n
	x.lock.Unlock()
	for ; n > 0; n-- {
		x.send(keepAlive(1))
	}
}

func (x *peer) ended() bool {
	x.lock.Lock()
	defer x.lock.Unlock()
	return x.eof
}

// tlv reads a value.
func tlv(b []byte) (tag byte, content []byte, rest []byte, ok bool) {
	if len(b) < 2 {
		return
	}
	n, i := int(b[1]), 2
	if n == 0x80 {
		for r := b[2:]; len(r) >= 2; {
			if r[0] == 0 && r[1] == 0 {
				return b[0], b[2 : len(b)-len(r)], r[2:], true
			}
			_, _, next, fine := tlv(r)
			if !fine {
				return
			}
			r = next
		}
		return
	}
	if n > 0x80 {
		k := n & 0x7f
		if k > 3 || len(b) < 2+k {
			return
		}
		n = 0
		for ; k > 0; k-- {
			n = n<<8 | int(b[i])
			i++
		}
	}
	if len(b) < i+n {
		return
	}
	return b[0], b[i : i+n], b[i+n:], true
}

// askedFor is the position of the element whose directory is requested. It
// serves to answer; what was requested is judged elsewhere.
func askedFor(m []byte) []int {
	p := []int{}
	var walk func(b []byte)
	walk = func(b []byte) {
		for len(b) > 0 {
			tag, c, rest, ok := tlv(b)
			if !ok {
				return
			}
			switch {
			case tag == app(2): // command
				return
			case tag == app(0) || tag == app(11) || tag == app(4) || tag == ctx(2):
				walk(c)
			case tag == ctx(0):
				t, n, _, ok := tlv(c)
				switch {
				case !ok:
				case t == 2:
					x := 0
					for _, d := range n {
						x = x<<8 | int(d)
					}
					p = append(p, x)
				case t == 13:
					x := 0
					for _, d := range n {
						x = x<<7 | int(d&0x7f)
						if d < 0x80 {
							p = append(p, x)
							x = 0
						}
					}
				default:
					walk(c)
				}
			case tag&0xe0 == 0x60:
				walk(c)
			}
			b = rest
		}
	}
	walk(m)
	return p
}

// ---- the client and what is observed of it ----

type want struct{ key, risk string }

type timed struct {
	l, id int
	due   int // when it has timed out at the latest
	quiet bool
}

type cworld struct {
	w      *world // elements, their ids and positions
	lock   sync.Mutex
	c      *socket.S101Client
	p      *provider
	x      *peer // the connection, nil if none
	T      int
	ears   map[int]*cear
	react  map[int][]cstep
	heard  []E
	wants  []*want     // requests
	upTo   map[int]int // how many of them may have reached the provider, and how many more may be lost then
	frames []B         // what has reached it and was not logged
	here   []string    // what has reached it and is not one of them yet
	timers []*timed
	maxDue int // of all short timeouts
	stuck  bool
	quit   bool // a callback has disconnected
	inside bool // part of a frame was sent
	rest   []byte
	restOf []byte
	old    []byte // what was not sent any more on the connection before
	enc    func() *enc
}

type cear struct {
	n  int
	w  *cworld
	id int
}

type cstep struct {
	Do   string  `json:"do"`
	Els  []*Elem `json:"els"`
	L    int     `json:"l"`
	Pos  []int   `json:"pos"`
	N    int     `json:"n"`
	What string  `json:"what"`
	L2   int     `json:"l2"`
	// a message about the root (0) or its element 1
	About *int `json:"about"`
	// a request that is refused if there are 254 more
	Full bool `json:"full"`
	In   []byte
}

var givenUp int

func newClientWorld() *cworld {
	reset(nil)
	w := &cworld{
		w:     &world{ids: map[*embertree.Element]int{}, at: map[string]*embertree.Element{}},
		c:     socket.NewS101Client(),
		p:     newProvider(),
		ears:  map[int]*cear{},
		react: map[int][]cstep{},
		enc:   plainEnc,
		upTo:  map[int]int{0: 0},
	}
	withLogger(w.c)
	return w
}

func (w *cworld) listener(l int) embertree.Listener {
	if l == 0 {
		return nil
	}
	return &cear{l, w, -1}
}

// Listeners are known by their number and their element, because a timeout
// does not say which element it is about.
func (w *cworld) ear(l int, id int) embertree.Listener {
	if l == 0 {
		return nil
	}
	k := l<<16 | id
	if w.ears[k] == nil {
		w.ears[k] = &cear{l, w, id}
	}
	return w.ears[k]
}

func (l *cear) Receive(x interface{}, err errors.Error) {
	w := l.w
	w.lock.Lock()
	if x == nil && err != nil {
		w.heard = append(w.heard, E{"do": "late", "l": l.n, "id": l.id, "ms": now()})
		for _, t := range w.timers {
			if t.l == l.n && t.id == l.id && !t.quiet {
				t.quiet = true
				break
			}
		}
		w.lock.Unlock()
		return
	}
	call := E{"do": "call", "l": l.n, "id": -2, "g": []Field{}, "kids": []int{}, "err": err != nil, "ms": now()}
	kids := []int{}
	var below []*embertree.Element
	switch e := x.(type) {
	case *embertree.RootElement:
		if w.w.root == nil {
			w.w.root = e
		}
		if e == w.w.root {
			call["id"] = 0
		}
		for n, c := range e.RootElementCollection {
			kids = append(kids, n)
			below = append(below, c)
		}
	case *embertree.Element:
		call["id"] = w.w.id(e)
		if c := e.GetContent(); c != nil {
			call["g"] = getters(c)
		}
		for n, c := range e.Children {
			kids = append(kids, n)
			below = append(below, c)
		}
	}
	sort.Ints(kids)
	call["kids"] = kids
	w.heard = append(w.heard, call)
	for _, t := range w.timers {
		if t.l == l.n && t.id == call["id"] {
			t.quiet = true
		}
	}
	todo := w.react[l.n]
	delete(w.react, l.n)
	w.lock.Unlock()
	for _, s := range todo {
		switch s.What {
		case "getkids":
			sort.Slice(below, func(i, j int) bool { return below[i].Number < below[j].Number })
			for _, e := range below {
				w.hear(w.get(e, s.L2))
			}
		case "get":
			if e, ok := w.element(s.Pos); ok {
				w.hear(w.get(e, s.L2))
			}
		case "listen", "unlisten":
			if id, ok := w.listen(s.What, s.L2, s.Pos); ok {
				w.hear(E{"do": map[string]string{"listen": "add", "unlisten": "remove"}[s.What], "l": s.L2, "id": id})
			}
		case "sleep":
			time.Sleep(time.Duration(s.N) * time.Millisecond)
		case "isconn":
			w.hear(E{"do": "isconn", "l": 0, "id": 0, "ok": w.c.IsConnected()})
		case "disconnect":
			w.lock.Lock()
			w.quit = true
			w.lock.Unlock()
			w.hear(E{"do": "disconnect", "l": 0, "id": 0, "ok": w.c.Disconnect() == nil})
		default:
			panic("reaction " + s.What)
		}
	}
}

func (w *cworld) hear(e E) {
	w.lock.Lock()
	defer w.lock.Unlock()
	for k, v := range (E{"g": []Field{}, "kids": []int{}, "err": false, "ms": now()}) {
		if _, ok := e[k]; !ok {
			e[k] = v
		}
	}
	w.heard = append(w.heard, e)
}

func (w *cworld) element(pos []int) (*embertree.Element, bool) {
	if len(pos) == 0 {
		return nil, true
	}
	e := w.w.at[key(pos)]
	return e, e != nil
}

func (w *cworld) idOf(e *embertree.Element) int {
	if e == nil {
		return 0
	}
	w.lock.Lock()
	defer w.lock.Unlock()
	return w.w.id(e)
}

// get requests a directory, and describes what came of it.
func (w *cworld) get(e *embertree.Element, l int) E {
	id := w.idOf(e)
	w.lock.Lock()
	ear := w.ear(l, id)
	at := now()
	var t *timed
	if w.T > 0 && l > 0 {
		t = &timed{l: l, id: id}
		w.timers = append(w.timers, t)
	}
	w.lock.Unlock()
	err := w.c.GetDirectory(e, ear)
	end := now()
	w.lock.Lock()
	defer w.lock.Unlock()
	if t != nil {
		if err != nil {
			t.quiet = true
		}
		t.due = end + w.T
		if w.T <= 1000 && t.due > w.maxDue {
			w.maxDue = t.due
		}
	}
	if err == nil {
		p := []int{}
		if e != nil {
			p = ints(e.GetPath())
		}
		w.wants = append(w.wants, &want{key: key(p)})
	}
	return E{"do": "get", "l": l, "id": id, "T": w.T, "at": at, "end": end, "ok": err == nil}
}

func (w *cworld) listen(what string, l int, pos []int) (int, bool) {
	if len(pos) == 0 && w.w.root == nil {
		return 0, false
	}
	e, ok := w.element(pos)
	if !ok {
		return 0, false
	}
	id := w.idOf(e)
	w.lock.Lock()
	ear := w.ear(l, id)
	if what == "unlisten" {
		for _, t := range w.timers {
			if t.l == l && t.id == id {
				t.quiet = true
			}
		}
	}
	w.lock.Unlock()
	var n embertree.ListeningNode = e
	if e == nil {
		n = w.w.root
	}
	if what == "listen" {
		n.AddListener(ear)
	} else {
		n.RemoveListener(ear)
	}
	return id, true
}

// arrived takes what has reached the provider from what is on its way.
func (w *cworld) arrived() {
	if w.x == nil {
		return
	}
	w.x.lock.Lock()
	asked := w.x.asked
	w.x.asked = nil
	w.frames = append(w.frames, w.x.frames...)
	w.x.frames = nil
	w.x.lock.Unlock()
	w.lock.Lock()
	defer w.lock.Unlock()
	for _, p := range asked {
		w.here = append(w.here, key(p))
	}
	for len(w.here) > 0 && w.arrive(w.here[0]) {
		w.here = w.here[1:]
	}
}

// arrive follows how much may have reached the provider, as the specification does.
func (w *cworld) arrive(k string) bool {
	to := map[int]int{}
	for n, lost := range w.upTo {
		for i := n; i < len(w.wants) && lost >= 0; i++ {
			if x := w.wants[i]; x.key == k {
				if best, ok := to[i+1]; !ok || best < lost {
					to[i+1] = lost
				}
			}
			if w.wants[i].risk == "" {
				break
			}
			if w.wants[i].risk == "end" {
				lost--
			}
		}
	}
	if len(to) == 0 {
		return false
	}
	w.upTo = to
	return true
}

func (w *cworld) allArrived() bool {
	w.lock.Lock()
	defer w.lock.Unlock()
	last := 0
	for i, x := range w.wants {
		if x.risk == "" {
			last = i + 1
		}
	}
	for n := range w.upTo {
		if n >= last {
			return true
		}
	}
	return false
}

// drain waits for the requests to arrive.
func (w *cworld) drain() bool {
	limit := patience
	if givenUp > 0 {
		limit /= 5
	}
	ok := until(limit, func() bool {
		w.arrived()
		return w.allArrived()
	})
	if !ok {
		givenUp++
	}
	return ok
}

// sync waits until all that the provider has sent so far has been decoded.
func (w *cworld) sync() bool {
	if w.x == nil || w.inside {
		return true
	}
	w.x.keepAlives(1)
	return w.answered()
}

// answered waits until all keep-alive requests have been.
func (w *cworld) answered() bool {
	ok := until(2*patience, func() bool {
		w.x.lock.Lock()
		defer w.x.lock.Unlock()
		return w.x.eof || w.x.resps >= w.x.reqs
	})
	w.lock.Lock()
	quit := w.quit
	w.lock.Unlock()
	if quit {
		ok = until(patience, w.x.ended) && until(patience, func() bool { return !libraryRuns() })
	} else {
		ok = ok && !w.x.ended()
		w.drain()
	}
	if !ok {
		givenUp++
		w.stuck = true
	}
	return ok
}

// event adds what has happened to e and logs it.
func (w *cworld) event(e E) {
	if w.x != nil {
		until(patience/5, func() bool { w.x.lock.Lock(); defer w.x.lock.Unlock(); return len(w.x.partial) == 0 })
	}
	// What arrives between the wait for all requests and here may be one that was not certain to.
	if op := e["op"]; (op == "msg" || op == "stream" || op == "sync" || op == "settled" && e["synced"] == true) && !w.stuck && !w.quit {
		w.drain()
	} else {
		w.arrived()
	}
	w.lock.Lock()
	calls := w.heard
	w.heard = nil
	w.lock.Unlock()
	if calls == nil {
		calls = []E{}
	}
	frames, tail, ka := append([]B{}, w.frames...), false, 0
	w.frames = nil
	if w.x != nil {
		w.x.lock.Lock()
		tail = len(w.x.partial) > 0
		ka = w.x.reqs - w.x.told
		w.x.told = w.x.reqs
		w.x.lock.Unlock()
	}
	if e["calls"] == nil {
		e["calls"] = calls
	}
	e["frames"], e["tail"], e["ka"], e["now"] = frames, tail, ka, now()
	if e["panic"] == nil {
		e["panic"] = ""
	}
	emit(e)
}

// over is called when the connection has ended; gone says whether nothing of it runs on.
func (w *cworld) over(how string) (gone bool) {
	gone = until(patience, func() bool { return !libraryRuns() })
	w.arrived()
	w.lock.Lock()
	from := len(w.wants)
	for n, lost := range w.upTo {
		if n < from {
			from = n
		}
		w.upTo[n] = lost + 3
	}
	for i := from; i < len(w.wants); i++ {
		if w.wants[i].risk == "" || how == "peer" {
			w.wants[i].risk = how
		}
	}
	w.lock.Unlock()
	w.old = w.rest
	w.rest, w.restOf, w.inside = nil, nil, false
	return gone
}

func (w *cworld) dump() []E {
	if w.w.root == nil {
		return []E{}
	}
	return w.w.dump()
}

// home is the loopback address of this process: what other processes do at the
// same time cannot meet it.
var home = func() string {
	pid := os.Getpid()
	at := fmt.Sprintf("127.%d.%d.%d", 1+(pid>>16)%250, (pid>>8)&255, 1+pid%254)
	ln, err := net.Listen("tcp", at+":0")
	if err != nil {
		return "127.0.0.1"
	}
	ln.Close()
	return at
}()

// nobody returns a port that is taken, but on which nobody listens.
func nobody() (uint16, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err == nil {
		at := &syscall.SockaddrInet4{}
		copy(at.Addr[:], net.ParseIP(home).To4())
		err = syscall.Bind(fd, at)
	}
	if err != nil {
		panic(err)
	}
	at, err := syscall.Getsockname(fd)
	if err != nil {
		panic(err)
	}
	return uint16(at.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

func (w *cworld) step(s cstep) {
	if w.stuck {
		return
	}
	switch s.Do {
	case "connect":
		port := w.p.port
		if s.What == "nowhere" {
			var free func()
			port, free = nobody()
			defer free()
		}
		had := w.p.count()
		var err errors.Error
		p := attempt("Connect", func() { err = w.c.Connect(home, port) })
		is := w.c.IsConnected()
		old := w.x
		if err == nil && is && w.x == nil {
			until(patience, func() bool { return w.p.count() > had })
		}
		e := E{"op": "connect", "nowhere": s.What == "nowhere", "ok": err == nil, "is": is, "conns": w.p.count(), "panic": p}
		if old == nil {
			w.x = nil
		}
		w.event(e)
		if w.p.count() > had && old == nil {
			w.x = w.p.last()
			w.quit = false
		}
	case "disconnect":
		if s.N == 0 && w.x != nil {
			w.drain()
		}
		var err errors.Error
		p := attempt("Disconnect", func() { err = w.c.Disconnect() })
		is := w.c.IsConnected()
		closed := w.x == nil || until(patience, w.x.ended)
		gone := w.over("end")
		w.event(E{"op": "disconnect", "ok": err == nil, "is": is, "closed": closed, "gone": gone, "panic": p})
		if w.x != nil {
			w.x.c.Close()
		}
		w.x = nil
	case "pclose":
		if w.x == nil {
			return
		}
		if s.N == 0 {
			w.drain()
		}
		if s.What == "rst" {
			w.x.c.(*net.TCPConn).SetLinger(0)
		}
		if s.What == "fin" {
			w.x.c.(*net.TCPConn).CloseWrite()
		} else {
			w.x.c.Close()
		}
		closed := until(patience, func() bool { return !w.c.IsConnected() && w.x.ended() })
		gone := w.over("peer")
		w.event(E{"op": "pclose", "is": w.c.IsConnected(), "closed": closed, "gone": gone})
		w.x.c.Close()
		w.x = nil
	case "isconn":
		w.event(E{"op": "isconn", "is": w.c.IsConnected()})
	case "timeout":
		w.c.SetTimeout(s.N)
		if s.N >= 0 {
			w.T = s.N
		}
	case "get":
		e, ok := w.element(s.Pos)
		if !ok {
			return
		}
		var ev E
		p := attempt("GetDirectory", func() { ev = w.get(e, s.L) })
		if ev == nil {
			ev = E{"l": s.L, "id": 0, "T": 0, "at": 0, "end": 0, "ok": false}
		}
		delete(ev, "do")
		ev["op"], ev["panic"] = "get", p
		w.event(ev)
	case "listen", "unlisten":
		if id, ok := w.listen(s.Do, s.L, s.Pos); ok {
			w.event(E{"op": s.Do, "l": s.L, "id": id})
		}
	case "react":
		w.lock.Lock()
		w.react[s.L] = append(w.react[s.L], s)
		w.lock.Unlock()
	case "msg", "half":
		if w.x == nil {
			return
		}
		in := w.enc().msg(s.Els)
		n := s.N
		if n < 1 {
			n = 1
		}
		fs := packets(in, n)
		if s.Do == "half" {
			k := rng.Intn(len(fs) + 1)
			all := bytes.Join(fs, nil)
			at := len(bytes.Join(fs[:k], nil))
			w.inside = false
			if rng.Intn(2) == 0 && k < len(fs) {
				at += rng.Intn(len(fs[k]))
				w.inside = at != len(bytes.Join(fs[:k], nil))
			}
			if at == len(all) {
				at = 0
			}
			w.x.send(all[:at])
			w.rest, w.restOf = all[at:], in
			return
		}
		all := bytes.Join(fs, nil)
		switch s.What {
		case "cut":
			for len(all) > 0 {
				k := 1 + rng.Intn(len(all))
				w.x.send(all[:k])
				all = all[k:]
				if rng.Intn(3) == 0 {
					time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
				}
			}
		case "ka":
			for _, f := range fs {
				w.x.send(f)
				if rng.Intn(2) == 0 {
					w.x.keepAlives(1 + rng.Intn(2))
				} else {
					w.x.send(keepAlive(2))
				}
			}
		default:
			w.x.send(all)
		}
		w.received(in)
	case "stream":
		if w.x == nil || w.w.root == nil {
			return
		}
		w.stream(s.In, s.N)
	case "stray": // the rest of what the connection before was sent
		if w.x != nil && w.w.root != nil && w.old != nil && len(w.react) == 0 && !w.inside {
			w.stream(w.old, 0)
			w.old = nil
		}
	case "rest":
		if w.x == nil || w.restOf == nil {
			return
		}
		w.x.send(w.rest)
		w.inside = false
		w.received(w.restOf)
		w.rest, w.restOf = nil, nil
	case "ka":
		if w.x == nil || w.inside {
			return
		}
		w.x.keepAlives(s.N)
		w.sync()
		w.event(E{"op": "sync", "stuck": w.stuck})
	case "kr":
		if w.x == nil || w.inside {
			return
		}
		for i := 0; i < s.N; i++ {
			w.x.send(keepAlive(2))
		}
		w.sync()
		w.event(E{"op": "sync", "stuck": w.stuck})
	case "sync":
		if w.x == nil || w.inside {
			return
		}
		w.sync()
		w.event(E{"op": "sync", "stuck": w.stuck})
	case "wait":
		w.settle()
	default:
		panic("step " + s.Do)
	}
}

func (w *cworld) received(in []byte) {
	w.sync()
	e := E{"op": "msg", "in": B(in), "stuck": w.stuck, "dumped": w.w.root != nil, "dump": []E{}}
	if !w.stuck {
		e["panic"] = attempt("dump", func() { e["dump"] = w.dump() })
	}
	w.event(e)
	if w.quit {
		w.over("end")
		w.x.c.Close()
		w.x = nil
	}
}

// stream sends any bytes, with kreqs keep-alive requests among them, in some
// pieces, and another keep-alive request to learn when all has been received.
func (w *cworld) stream(in []byte, kreqs int) {
	in = append(append([]byte{}, in...), keepAlive(1)...)
	w.x.lock.Lock()
	w.x.reqs += kreqs + 1
	w.x.told += kreqs + 1
	w.x.lock.Unlock()
	for rest, how := in, rng.Intn(3); len(rest) > 0; {
		k := len(rest)
		if how > 0 {
			k = 1 + rng.Intn(len(rest))
		}
		w.x.send(rest[:k])
		rest = rest[k:]
		if how > 1 && rng.Intn(4) == 0 {
			time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
		}
	}
	w.answered()
	e := E{"op": "stream", "in": B(in), "stuck": w.stuck, "dump": []E{}}
	if !w.stuck {
		e["panic"] = attempt("dump", func() { e["dump"] = w.dump() })
	}
	w.event(e)
}

// settle waits until all timeouts have been reported, and false ones would have been.
func (w *cworld) settle() {
	if w.stuck {
		return
	}
	pending := func() bool {
		w.lock.Lock()
		defer w.lock.Unlock()
		for _, t := range w.timers {
			if !t.quiet && t.due <= w.maxDue {
				return true
			}
		}
		return false
	}
	if w.maxDue > 0 {
		if d := w.maxDue + 25 - now(); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		if !until(10*time.Second, func() bool { return !pending() }) {
			givenUp++
		}
	}
	if w.x != nil && !w.inside {
		w.sync()
		time.Sleep(2 * time.Millisecond)
		w.sync()
	}
	e := E{"op": "settled", "stuck": w.stuck, "synced": w.x != nil && !w.inside, "dumped": w.w.root != nil && !w.stuck, "dump": []E{}}
	if !w.stuck {
		e["panic"] = attempt("dump", func() { e["dump"] = w.dump() })
	}
	w.event(e)
}

func (w *cworld) end() {
	w.settle()
	if w.x != nil {
		w.step(cstep{Do: "disconnect"})
	}
	if w.x != nil {
		w.x.c.Close()
	}
	if w.c.IsConnected() {
		w.c.Disconnect()
	}
	w.p.ln.Close()
	flush()
	if givenUp > 3 && current == nil {
		flush()
		os.Exit(0)
	}
}

// fill requests the directory of the root n times.
func (w *cworld) fill(n int) {
	ok, at := 0, now()
	for i := 0; i < n; i++ {
		if w.get(nil, 0)["ok"] == true {
			ok++
		}
	}
	w.event(E{"op": "fill", "of": n, "ok": ok, "at": at, "end": now()})
}

// boot connects and has the client know some elements.
func (w *cworld) boot(els []*Elem) {
	w.step(cstep{Do: "connect"})
	w.step(cstep{Do: "get", L: 9})
	w.step(cstep{Do: "msg", Els: els})
}

func clientSuite(prop string) {
	n, filled := int(rng.Int63n(1000)), 0
	every := map[string]int{"C23": pick(2, 1), "C24": pick(2, 1), "C25": pick(3, 1), "C27": 1}[prop]
	cases(func(raw json.RawMessage) {
		n++
		if n%(*parts*every) != *whichPart {
			return
		}
		var ss []cstep
		if err := json.Unmarshal(raw, &ss); err != nil {
			panic(err)
		}
		full := false
		open := prop == "C25"
		for _, s := range ss {
			open = s.Do == "connect" && s.What == "" || open && s.Do != "disconnect" && s.Do != "pclose"
			full = full || s.Full && !open
		}
		if full {
			if filled >= pick(6, 60) {
				return
			}
			filled++
		}
		w := newClientWorld()
		w.boot([]*Elem{newElem("node", false, 1)})
		if prop != "C27" || rng.Intn(2) == 0 {
			w.step(cstep{Do: "disconnect"})
		}
		if full {
			w.fill(254)
		}
		for _, s := range ss {
			if s.About != nil {
				s.Els = []*Elem{}
				if *s.About > 0 {
					s.Els = append(s.Els, newElem("node", false, *s.About))
				}
				s.N, s.What = 1+rng.Intn(2), []string{"", "cut"}[rng.Intn(2)]
			}
			w.step(s)
		}
		w.end()
	})
	for i := 0; i < partly(pick(map[string]int{"C23": 400, "C24": 800, "C25": 500, "C27": 500}[prop], 12000)); i++ {
		w := newClientWorld()
		w.enc = []func() *enc{plainEnc, indefEnc, func() *enc { return mixedEnc(true) }}[rng.Intn(3)]
		w.random(prop)
		w.end()
	}
	if prop == "C25" {
		for i := 0; i < partly(pick(48, 600)); i++ {
			w := newClientWorld()
			w.slowly()
			w.end()
		}
	}
	if prop == "C23" || prop == "C25" {
		for i := 0; i < partly(pick(16, 64)); i++ {
			w := newClientWorld()
			w.brim()
			w.end()
		}
	}
	if prop == "C24" {
		for i := 0; i < partly(pick(32, 300)); i++ {
			w := newClientWorld()
			w.alive()
			w.end()
		}
	}
	if prop == "C23" {
		for i := 0; i < partly(pick(16, 64)); i++ {
			w := newClientWorld()
			w.deep()
			w.end()
		}
	}
}

// slowly has callbacks take longer than the timeout over an answer.
func (w *cworld) slowly() {
	w.boot([]*Elem{newElem("node", false, 1), newElem("node", false, 2)})
	T := 40 + rng.Intn(30)
	w.step(cstep{Do: "timeout", N: T})
	about := func() []int { return [][]int{nil, {1}, {2}}[rng.Intn(3)] }
	for k := 1 + rng.Intn(4); k > 0; k-- {
		w.step(cstep{Do: "get", L: 1 + rng.Intn(3), Pos: about()})
	}
	for k := 1 + rng.Intn(2); k > 0; k-- {
		w.step(cstep{Do: "react", L: 1 + rng.Intn(3), What: "sleep", N: T + 10 + rng.Intn(20)})
	}
	w.step(cstep{Do: "msg", Els: []*Elem{newElem("node", false, 1+rng.Intn(2))}, N: 1})
	if rng.Intn(2) == 0 {
		w.step(cstep{Do: "msg", Els: []*Elem{}, N: 1})
	}
}

// alive has keep-alives between the packets of messages of any size.
func (w *cworld) alive() {
	w.boot([]*Elem{})
	for k := 1 + rng.Intn(2); k > 0; k-- {
		g := &gen{strMax: 20, noCmd: true, fill: 1}
		m := cstep{Do: "msg", Els: g.wide(3+rng.Intn(6), 0), N: 2 + rng.Intn(20), What: "ka"}
		for _, d := range m.Els {
			if d.K == "node" {
				d.Has, d.F = true, []Field{{K: 1, T: "str", V: list(payload(rng.Intn(2000)))}}
			}
		}
		w.step(m)
	}
	w.step(cstep{Do: "sync"})
}

// brim makes more requests than there is room for, and then has everything answered:
// those that were refused must have left nothing behind.
func (w *cworld) brim() {
	w.boot([]*Elem{newElem("node", false, 1), newElem("node", false, 2)})
	w.step(cstep{Do: "disconnect"})
	w.fill(250 + rng.Intn(8))
	w.step(cstep{Do: "timeout", N: []int{0, 40, 60000}[rng.Intn(3)]})
	for k := 3 + rng.Intn(7); k > 0; k-- {
		w.step(cstep{Do: "get", L: 1 + rng.Intn(4), Pos: [][]int{nil, {1}, {2}}[rng.Intn(3)]})
	}
	w.step(cstep{Do: "connect"})
	if rng.Intn(2) == 0 {
		w.step(cstep{Do: "sync"})
	}
	w.step(cstep{Do: "msg", Els: []*Elem{}, N: 1})
	w.step(cstep{Do: "msg", Els: []*Elem{newElem("node", false, 1), newElem("node", false, 2)}, N: 1})
}

// deep requests directories of elements far below the root; their paths take many bytes.
func (w *cworld) deep() {
	w.boot([]*Elem{newElem("node", false, 1)})
	num, p := []func() int{smallNum, rnum}[rng.Intn(2)], []int{1}
	for depth := []int{20, 100, 130, 150, 260}[rng.Intn(5)]; len(p) < depth; {
		d := newElem("node", false, num())
		more := []int{d.num()}
		for k := rng.Intn(40); k > 0; k-- {
			up := newElem("node", false, num())
			up.Ch = []*Elem{d}
			d = up
			more = append([]int{d.num()}, more...)
		}
		d.Q, d.P = true, append(append([]int{}, p...), d.num())
		p = append(p, more...)
		w.step(cstep{Do: "msg", Els: []*Elem{d}, N: 1})
	}
	if rng.Intn(2) == 0 {
		w.step(cstep{Do: "disconnect"})
	}
	for k := 3 + rng.Intn(6); k > 0; k-- {
		w.step(cstep{Do: "get", L: 1, Pos: p[:1+rng.Intn(len(p))]})
		w.step(cstep{Do: "get", L: 1, Pos: p})
	}
	w.step(cstep{Do: "connect"})
	w.step(cstep{Do: "sync"})
}

var weights = map[string]map[string]int{
	"C23": {"get": 8, "burst": 2, "msg": 3, "ka": 1, "disconnect": 1, "pclose": 1, "connect": 3, "react": 1, "timeout": 1, "nil": 1},
	"C24": {"get": 3, "burst": 1, "msg": 6, "half": 3, "rest": 6, "ka": 6, "kr": 3, "disconnect": 1, "connect": 3},
	"C25": {"get": 8, "msg": 6, "timeout": 3, "wait": 1, "react": 3, "listen": 1, "unlisten": 2, "half": 1, "rest": 2, "disconnect": 1, "connect": 2, "nil": 1, "ka": 1},
	"C27": {"get": 3, "msg": 4, "half": 4, "rest": 1, "disconnect": 3, "pclose": 3, "connect": 8, "stray": 6, "nowhere": 1, "isconn": 2, "ka": 1, "react": 1, "quit": 1, "burst": 1},
}

func (w *cworld) random(prop string) {
	g := &gen{strMax: 6, maxKids: 3, noCmd: true, fill: 1}
	ws := weights[prop]
	names := []string{}
	for k, n := range ws {
		for ; n > 0; n-- {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	timeouts := []int{0, 60000}
	if prop == "C25" {
		timeouts = []int{0, 30, 60, 60, 60000, -5, []int{2200000, 4300000, 70000000, 1000000000}[rng.Intn(4)]}
	}
	if rng.Intn(6) > 0 {
		if prop == "C25" || rng.Intn(3) == 0 {
			w.step(cstep{Do: "timeout", N: timeouts[rng.Intn(len(timeouts))]})
		}
		w.boot(w.w.message(g))
	}
	pos := func() []int {
		if rng.Intn(4) == 0 {
			return nil
		}
		return w.w.anyPos()
	}
	for m := 4 + rng.Intn(10); m > 0; m-- {
		s := cstep{Do: names[rng.Intn(len(names))], L: 1 + rng.Intn(4), N: 1}
		switch s.Do {
		case "get":
			s.Pos = pos()
		case "nil":
			s.Do, s.L, s.Pos = "get", 0, pos()
		case "burst":
			s.Do = "get"
			for k := []int{5, 20, 60}[rng.Intn(3)]; k > 0; k-- {
				s.Pos, s.L = pos(), 1+rng.Intn(6)
				w.step(s)
			}
			if rng.Intn(2) == 0 {
				w.step(cstep{Do: []string{"disconnect", "pclose"}[rng.Intn(2)], N: rng.Intn(2)})
			}
		case "msg", "half":
			s.Els = w.w.message(g)
			s.N = []int{1, 1, 2, 3, 5}[rng.Intn(5)]
			s.What = []string{"", "cut", "ka"}[rng.Intn(3)]
			if w.restOf != nil {
				s.Do = "rest"
			}
		case "ka", "kr":
			s.N = []int{1, 2, 5, 40}[rng.Intn(4)]
		case "disconnect", "pclose":
			s.N = rng.Intn(2)
			s.What = []string{"", "rst", "fin"}[rng.Intn(3)]
		case "nowhere":
			s.Do, s.What = "connect", "nowhere"
		case "timeout":
			s.N = timeouts[rng.Intn(len(timeouts))]
		case "react":
			s.What = []string{"get", "get", "getkids", "listen", "unlisten", "isconn"}[rng.Intn(6)]
			s.L2, s.Pos = 1+rng.Intn(5), pos()
		case "quit":
			s.Do, s.What = "react", "disconnect"
		case "listen", "unlisten":
			s.Pos = pos()
		}
		w.step(s)
	}
	if w.x == nil && rng.Intn(2) == 0 {
		w.step(cstep{Do: "connect"})
		w.step(cstep{Do: "sync"})
	}
}

// ---- C23: requests of several goroutines ----

func suiteTogether() {
	for i := 0; i < partly(pick(60, 1000)); i++ {
		w := newClientWorld()
		els := []*Elem{}
		k := 4 + rng.Intn(8)
		for n := 1; n <= k; n++ {
			els = append(els, newElem("node", false, n))
			els[n-1].Ch = []*Elem{newElem("node", false, n), newElem("node", false, n+1)}
		}
		w.boot(els)
		before := rng.Intn(2) == 0
		if before {
			w.step(cstep{Do: "disconnect"})
		}
		if w.stuck {
			w.end()
			continue
		}
		if w.x != nil {
			w.event(E{"op": "isconn", "is": w.c.IsConnected()})
		}
		each := []int{3, 10, 40}[rng.Intn(3)]
		var lock sync.Mutex
		var wg sync.WaitGroup
		reqs := []E{}
		count, ok := 0, 0
		tick := func() int { lock.Lock(); defer lock.Unlock(); count++; return count }
		for n := 1; n <= k; n++ {
			wg.Add(1)
			go func(n int) {
				defer wg.Done()
				for j := 0; j < each; j++ {
					p := [][]int{{n}, {n, n}, {n, n + 1}}[j%3]
					e := w.w.at[key(p)]
					b := tick()
					err := w.c.GetDirectory(e, nil)
					x := tick()
					lock.Lock()
					reqs = append(reqs, E{"pos": p, "begin": b, "end": x, "ok": err == nil})
					if err == nil {
						ok++
					}
					lock.Unlock()
				}
			}(n)
		}
		if rng.Intn(2) == 0 && w.x != nil {
			w.x.keepAlives(5)
		}
		wg.Wait()
		if before {
			if err := w.c.Connect(home, w.p.port); err != nil {
				panic("Connect fails")
			}
			until(patience, func() bool { return w.p.count() > 1 })
			w.x = w.p.last()
		}
		if !until(patience, func() bool { w.x.lock.Lock(); defer w.x.lock.Unlock(); return len(w.x.asked) >= ok }) {
			givenUp++
		}
		w.x.keepAlives(1)
		stuck := !until(patience, func() bool { w.x.lock.Lock(); defer w.x.lock.Unlock(); return w.x.resps >= w.x.reqs })
		w.event(E{"op": "together", "reqs": reqs, "before": before, "stuck": stuck})
		w.stuck = true
		w.end()
	}
}

// ---- C26: GetTree ----

type treeEar struct {
	lock  sync.Mutex
	calls []E
}

func (l *treeEar) Receive(x interface{}, err errors.Error) {
	l.lock.Lock()
	defer l.lock.Unlock()
	l.calls = append(l.calls, E{"err": err != nil, "node": x != nil, "ms": now()})
}

func (l *treeEar) count() int {
	l.lock.Lock()
	defer l.lock.Unlock()
	return len(l.calls)
}

// crowdEar makes requests when it is called.
type crowdEar struct {
	w    *cworld
	n    int
	once sync.Once
}

func (l *crowdEar) Receive(x interface{}, err errors.Error) {
	l.once.Do(func() {
		for k := 0; k < l.n; k++ {
			if l.w.c.GetDirectory(nil, &treeEar{}) != nil {
				return
			}
		}
	})
}

// walkTree is the tree of the provider and how it answers.
type walkTree struct {
	at    map[string]*Elem
	pos   [][]int
	kids  map[string][][]int
	roots []*Elem
}

func (t *walkTree) add(d *Elem, p []int) {
	d.Q, d.P = false, p[len(p)-1:]
	t.at[key(p)] = d
	t.pos = append(t.pos, p)
	for _, c := range d.Ch {
		q := append(append([]int{}, p...), c.num())
		t.kids[key(p)] = append(t.kids[key(p)], q)
		t.add(c, q)
	}
}

func newWalkTree(els []*Elem) *walkTree {
	t := &walkTree{at: map[string]*Elem{}, kids: map[string][][]int{}, roots: els}
	for _, d := range els {
		t.kids[key(nil)] = append(t.kids[key(nil)], []int{d.num()})
		t.add(d, []int{d.num()})
	}
	return t
}

// bare is an element with its contents and, if deep, all below it.
func (t *walkTree) bare(p []int, deep bool) *Elem {
	d := *t.at[key(p)]
	if !deep {
		d.Ch = []*Elem{}
	}
	return &d
}

// flatForm is that of answers with the paths of the children alone: it tells the element asked
// for only of children that are new to it.
const flatForm = 4

// answer to a request for p: its children, in one of the forms.
func (t *walkTree) answer(p []int, form int) []*Elem {
	kids := []*Elem{}
	for _, q := range t.kids[key(p)] {
		kids = append(kids, t.bare(q, form == 3 && len(p) == 0))
	}
	if len(p) == 0 {
		return kids
	}
	if form == flatForm && len(kids) > 0 {
		for k, q := range t.kids[key(p)] {
			kids[k].Q, kids[k].P = true, q
		}
		return kids
	}
	kind := func(q []int) string { return t.at[key(q)].K }
	up := newElem(kind(p), false, p[len(p)-1])
	if form == 2 || len(kids) == 0 {
		up = t.bare(p, false)
	}
	up.Ch = kids
	if form == 0 || len(p) == 1 && form == 1 {
		return []*Elem{nested(p, kind, up)}
	}
	up.Q, up.P = true, p
	return []*Elem{up}
}

func (g *gen) wide(n int, depth int) []*Elem {
	els := []*Elem{}
	pick := rnum
	if n > 40 {
		pick = func() int { return rng.Intn(5000) }
	}
	for _, k := range distinct(n, pick) {
		d := newElem("node", false, k)
		if rng.Intn(3) == 0 {
			d = g.elemOf([]string{"node", "param", "matrix", "func"}[rng.Intn(4)], 0, false, k)
		}
		els = append(els, d)
	}
	if depth > 0 && len(els) > 0 {
		for j := 0; j < 3; j++ {
			els[rng.Intn(len(els))].Ch = g.wide(rng.Intn(n+1), depth-1)
		}
	}
	return els
}

func onlyNodesHaveKids(l []*Elem) {
	for _, d := range l {
		if len(d.Ch) > 0 && d.K != "node" {
			d.Ch = []*Elem{}
		}
		onlyNodesHaveKids(d.Ch)
	}
}

func suiteWalks() {
	n := 0
	cases(func(raw json.RawMessage) {
		n++
		if n%*parts != *whichPart {
			return
		}
		var c struct {
			Tree  []*Elem `json:"tree"`
			Skip  [][]int `json:"skip"`
			Order string  `json:"order"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		skip := map[string]bool{}
		for _, p := range c.Skip {
			skip[key(p)] = true
		}
		T := 0
		if len(skip) > 0 {
			T = 100
		}
		walk(walkPlan{t: newWalkTree(nodes(c.Tree)), skip: skip, T: T, order: c.Order, before: n%5 == 0, again: n%3 == 0, late: n%2 == 0})
	})
	g := &gen{strMax: 6, maxKids: 3, noCmd: true, fill: 1}
	for i := 0; i < partly(pick(240, 4000)); i++ {
		var els []*Elem
		switch {
		case i == 1 && *whichPart%4 == 0 || i%40 == 39:
			els = g.wide(257+rng.Intn(150), rng.Intn(2))
		case rng.Intn(3) == 0: // a chain
			d := newElem("node", false, smallNum())
			els = []*Elem{d}
			for k := 3 + rng.Intn(12); k > 0; k-- {
				c := newElem("node", false, rnum())
				d.Ch, d = []*Elem{c}, c
			}
		default:
			els = g.wide(rng.Intn(7), 1+rng.Intn(3))
		}
		onlyNodesHaveKids(els)
		p := walkPlan{t: newWalkTree(els), order: []string{"", "", "last", "any", "slow"}[rng.Intn(5)], T: []int{0, 60000}[rng.Intn(2)], noise: rng.Intn(3) == 0}
		if rng.Intn(3) == 0 && len(p.t.pos) > 0 && len(p.t.pos) < 60 {
			p.T = []int{60, 100}[rng.Intn(2)]
			p.skip = map[string]bool{}
			for k := 1 + rng.Intn(3); k > 0; k-- {
				p.skip[key(p.t.pos[rng.Intn(len(p.t.pos))])] = true
			}
			if rng.Intn(5) == 0 {
				p.skip = map[string]bool{key(nil): true}
			}
			p.late = rng.Intn(2) == 0
			p.cut = rng.Intn(2) == 0
		}
		if i%30 == 7 {
			els = []*Elem{}
			for _, k := range distinct(260+rng.Intn(200), func() int { return rng.Intn(1000) }) {
				els = append(els, newElem("node", false, k))
			}
			walk(walkPlan{t: newWalkTree(els), order: p.order, T: 400, mute: true, skip: map[string]bool{}, late: rng.Intn(2) == 0})
			continue
		}
		if p.skip == nil && len(p.t.pos) < 60 {
			if p.twice = rng.Intn(4) == 0; !p.twice && rng.Intn(4) == 0 {
				p.crowd, p.T = 1+rng.Intn(len(p.t.pos)+2), 0
				walk(p)
				continue
			}
		}
		p.before, p.again = rng.Intn(5) == 0, rng.Intn(5) == 0 && len(p.t.pos) < 60
		walk(p)
	}
}

// nodes are new nodes with the numbers of l.
func nodes(l []*Elem) []*Elem {
	out := []*Elem{}
	for _, d := range l {
		e := newElem("node", false, d.num())
		e.Ch = nodes(d.Ch)
		out = append(out, e)
	}
	return out
}

type walkPlan struct {
	t      *walkTree
	skip   map[string]bool
	T      int
	order  string
	noise  bool // updates that nobody asked for
	late   bool // what is skipped is answered after its timeout
	cut    bool // the provider closes before all was answered
	before bool // the tree is asked for before there is a connection
	again  bool // and then once more
	mute   bool // nothing is answered until no more requests come
	twice  bool // the tree is asked for twice
	crowd  int  // when the root is answered there is only room for these requests; 0: for all
}

func walk(pl walkPlan) {
	w := newClientWorld()
	w.enc = []func() *enc{plainEnc, indefEnc, func() *enc { return mixedEnc(true) }}[rng.Intn(3)]
	w.boot([]*Elem{})
	w.step(cstep{Do: "unlisten", L: 9})
	sent := []B{}
	if !w.stuck {
		w.walk(pl, &sent)
		if pl.again && w.x != nil {
			pl.skip, pl.T, pl.cut, pl.twice = nil, 0, false, false
			w.walk(pl, &sent)
		}
	}
	w.stuck = true
	w.end()
}

// watchStalls finds out how long this process does not run.
func watchStalls() (end func() time.Duration) {
	stop, done := make(chan bool), make(chan time.Duration)
	go func() {
		worst, last := time.Duration(0), time.Now()
		for {
			select {
			case <-stop:
				done <- worst
				return
			case <-time.After(time.Millisecond):
			}
			if d := time.Since(last); d > worst {
				worst = d
			}
			last = time.Now()
		}
	}()
	return func() time.Duration { close(stop); return <-done }
}

func (w *cworld) walk(pl walkPlan, sent *[]B) {
	w.c.SetTimeout(pl.T)
	if pl.before {
		w.step(cstep{Do: "disconnect"})
	}
	type question struct {
		p  []int
		at time.Time
	}
	ask := make(chan question, 1<<16)
	slow := time.Duration(0) // how long an answer, or anything, had to wait
	stall := watchStalls()
	ears := []*treeEar{{}}
	if pl.twice {
		ears = append(ears, &treeEar{})
	}
	begun := 0
	var err errors.Error
	at := now()
	begin := func() (p string) {
		p = attempt("GetTree", func() {
			if e := w.c.GetTree(ears[begun]); e != nil {
				err = e
			}
		})
		begun++
		return
	}
	over := func() bool {
		for _, ear := range ears {
			if ear.count() == 0 {
				return false
			}
		}
		return true
	}
	if pl.crowd > 0 {
		attempt("GetDirectory", func() { err = w.c.GetDirectory(nil, &crowdEar{w: w, n: 257 - pl.crowd}) })
	}
	p := ""
	if pl.before {
		p = begin()
		w.step(cstep{Do: "connect"})
		if w.x == nil {
			w.event(E{"op": "isconn", "is": true})
			stall()
			return
		}
	}
	w.x.lock.Lock()
	for _, q := range w.x.asked {
		ask <- question{q, time.Now()}
	}
	w.x.onAsk = func(p []int) { ask <- question{p, time.Now()} }
	w.x.lock.Unlock()
	if !pl.before {
		p = begin()
	}
	later := 0 // the second GetTree is after this many answers
	if pl.twice && rng.Intn(2) == 0 {
		later = rng.Intn(len(pl.t.pos) + 1)
	}
	say := func(els []*Elem) {
		in := w.enc().msg(els)
		*sent = append(*sent, in)
		w.x.send(bytes.Join(packets(in, 1+rng.Intn(2)), nil))
	}
	var open []question
	var skipped [][]int
	quiet := time.Time{} // until then no request may come
	roots := 0           // requests for the root
	form := rng.Intn(4)
	if len(*sent) == 0 && rng.Intn(3) == 0 && !pl.twice {
		form = flatForm
	}
	total := len(pl.t.pos) + 1
	cutAt, count, cut := rng.Intn(total+1), 0, false
	stop := time.Now().Add(patience)
	for !over() && time.Now().Before(stop) && !cut {
		if begun < len(ears) && (count >= later || ears[0].count() > 0) {
			if q := begin(); q != "" {
				p = q
			}
		}
		wait := time.Duration(0)
		if len(open) == 0 || (pl.order == "last" || pl.order == "any") && rng.Intn(3) > 0 && len(open) < total/2 {
			wait = 2 * time.Millisecond
		}
		select {
		case q := <-ask:
			stop = time.Now().Add(patience)
			if pl.mute && len(q.p) > 0 && (quiet.IsZero() || time.Now().Before(quiet)) {
				quiet = time.Now().Add(time.Duration(pl.T) * time.Millisecond / 4)
				pl.skip[key(q.p)] = true
			}
			if pl.crowd > 0 && len(q.p) == 0 {
				if roots++; roots > 1 {
					continue
				}
			}
			if pl.skip[key(q.p)] {
				skipped = append(skipped, q.p)
			} else {
				open = append(open, q)
			}
			continue
		case <-time.After(wait):
		}
		if len(open) == 0 {
			continue
		}
		k := 0
		switch pl.order {
		case "last":
			k = len(open) - 1
		case "any":
			k = rng.Intn(len(open))
		case "slow":
			time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
		}
		q := open[k].p
		if d := time.Since(open[k].at); d > slow {
			slow = d
		}
		open = append(open[:k:k], open[k+1:]...)
		if pl.cut && count >= cutAt {
			w.x.c.Close()
			cut = true
			break
		}
		count++
		if pl.t.at[key(q)] == nil && len(q) > 0 {
			continue
		}
		f := form
		if f == 3 && rng.Intn(2) == 0 {
			f = rng.Intn(3)
		} else if f == flatForm && rng.Intn(4) == 0 {
			f = rng.Intn(3)
		}
		say(pl.t.answer(q, f))
		if pl.noise && rng.Intn(3) == 0 && len(q) > 0 {
			say([]*Elem{nested(q, func(x []int) string { return pl.t.at[key(x)].K }, pl.t.bare(q, false))})
		}
	}
	if !until(2*patience, func() bool { return over() || err != nil }) {
		givenUp++
	}
	if pl.late && !cut {
		for _, q := range skipped {
			say(pl.t.answer(q, form%3))
		}
	}
	if pl.T > 0 && pl.T < 1000 {
		time.Sleep(time.Duration(pl.T+15) * time.Millisecond)
	}
	skip := [][]int{}
	for _, q := range append([][]int{{}}, pl.t.pos...) {
		if pl.skip[key(q)] {
			skip = append(skip, q)
		}
	}
	ok := true
	if cut {
		skip = append(skip, []int{-1})
		until(patience, func() bool { return !w.c.IsConnected() })
		ok = w.over("peer")
	} else {
		ok = w.sync()
		time.Sleep(time.Millisecond)
		ok = ok && w.sync()
	}
	calls := []E{}
	for n, ear := range ears {
		ear.lock.Lock()
		for _, c := range ear.calls {
			c["w"] = n + 1
			calls = append(calls, c)
		}
		ear.lock.Unlock()
	}
	w.lock.Lock()
	w.wants, w.here, w.upTo = nil, nil, map[int]int{0: 0}
	w.lock.Unlock()
	if d := stall(); d > slow {
		slow = d
	}
	if len(pl.skip) > 0 && slow > time.Duration(pl.T)*time.Millisecond/2 {
		// the driver was too slow: this says nothing about timeouts
		w.x.c.Close()
		w.x, w.stuck = nil, true
		return
	}
	w.event(E{"op": "walk", "at": at, "T": pl.T, "ok": err == nil, "stuck": !ok, "skip": skip, "cut": cut, "walks": len(ears), "crowd": pl.crowd > 0,
		"tree": pl.t.roots, "sent": *sent, "dump": w.dump(), "calls": calls, "panic": p})
	if cut {
		w.x = nil
	} else if pl.twice || pl.crowd > 0 {
		// requests may still be on their way
		w.x.c.Close()
		w.x, w.stuck = nil, true
	}
}

// ---- C27: a callback that runs on while the client connects again ----

func suiteReconnect() {
	for i := 0; i < partly(pick(24, 300)); i++ {
		w := newClientWorld()
		w.boot([]*Elem{newElem("node", false, 1)})
		if w.stuck {
			w.end()
			continue
		}
		in, out := make(chan bool), make(chan bool)
		calls, own := 0, rng.Intn(2) == 0 // the callback itself connects again
		again := func() {
			if err := w.c.Disconnect(); err != nil {
				panic("Disconnect fails")
			}
			if err := w.c.Connect(home, w.p.port); err != nil {
				panic("Connect fails")
			}
			until(patience, func() bool { return w.p.count() > 1 })
		}
		w.w.root.AddListener(&hook{func() {
			calls++
			if calls == 1 {
				if own {
					again()
				}
				in <- true
				<-out
			}
		}})
		var all []byte
		n, asks := 2+rng.Intn(100), rng.Intn(2) == 0
		for k := 0; k < n; k++ {
			d := newElem("node", false, 1)
			d.Ch = []*Elem{newElem("node", false, k)}
			if asks && k > 0 && rng.Intn(4) == 0 {
				all = append(all, keepAlive(1)...)
			}
			all = append(all, bytes.Join(packets(plainEnc().msg([]*Elem{d}), 1+rng.Intn(2)), nil)...)
		}
		w.x.send(all)
		<-in
		if !own {
			again()
		}
		x := w.p.last()
		m := 1 + rng.Intn(100)
		feed := func() {
			for k := 0; k < m; k++ {
				d := newElem("node", false, 1)
				d.Ch = []*Elem{newElem("node", false, 1000+k)}
				x.send(bytes.Join(packets(plainEnc().msg([]*Elem{d}), 1+rng.Intn(2)), nil))
			}
		}
		early := rng.Intn(2) == 0
		if early {
			feed()
			time.Sleep(time.Duration(rng.Intn(4)) * time.Millisecond)
		}
		close(out)
		if !early {
			feed()
		}
		x.keepAlives(1)
		stuck := !until(2*patience, func() bool { x.lock.Lock(); defer x.lock.Unlock(); return x.resps >= x.reqs })
		missing := 0
		if !stuck {
			top := w.w.root.RootElementCollection[1]
			for k := 0; k < m; k++ {
				if top == nil || top.Children[1000+k] == nil {
					missing++
				}
			}
		} else {
			givenUp++
		}
		time.Sleep(2 * time.Millisecond)
		x.lock.Lock()
		resps, reqs := x.resps, x.reqs
		x.lock.Unlock()
		emit(E{"op": "again", "stuck": stuck, "missing": missing, "resps": resps, "reqs": reqs, "panic": ""})
		w.stuck = true
		w.end()
	}
}

// ---- C27: goroutines that connect and disconnect the same client ----

func suiteRivals() {
	for i := 0; i < partly(pick(160, 3000)); i++ {
		w := newClientWorld()
		var lock sync.Mutex
		var wg sync.WaitGroup
		count := 0
		ops := []E{}
		tick := func() int { lock.Lock(); defer lock.Unlock(); count++; return count }
		start := make(chan bool)
		plans := [][]string{}
		for k := 2 + rng.Intn(3); k > 0; k-- {
			plan := []string{}
			for n := 1 + rng.Intn(3); n > 0; n-- {
				plan = append(plan, []string{"connect", "connect", "connect", "disconnect", "isconn"}[rng.Intn(5)])
			}
			plans = append(plans, plan)
		}
		for _, plan := range plans {
			wg.Add(1)
			go func(plan []string) {
				defer wg.Done()
				<-start
				for _, do := range plan {
					b, ok := tick(), false
					switch do {
					case "connect":
						ok = w.c.Connect(home, w.p.port) == nil
					case "disconnect":
						ok = w.c.Disconnect() == nil
					default:
						ok = w.c.IsConnected()
					}
					x := tick()
					lock.Lock()
					ops = append(ops, E{"do": do, "begin": b, "end": x, "ok": ok})
					lock.Unlock()
				}
			}(plan)
		}
		close(start)
		wg.Wait()
		is := w.c.IsConnected()
		want := 0
		if is {
			want = 1
		}
		var live []*peer
		look := func() int {
			w.p.lock.Lock()
			defer w.p.lock.Unlock()
			live = nil
			for _, x := range w.p.conns {
				if !x.ended() {
					live = append(live, x)
				}
			}
			return len(live)
		}
		stuck, gone := true, true
		// a connection that was given up at once may be accepted and end after the one that stays
		until(patience, func() bool {
			if look() != want {
				return false
			}
			stuck = false
			for _, x := range live {
				x.lock.Lock()
				new := x.reqs == 0
				stuck = stuck || x.resps != 1
				x.lock.Unlock()
				if new {
					x.keepAlives(1)
				}
			}
			return !stuck
		})
		open := len(live)
		if is {
			w.c.Disconnect()
		}
		gone = until(patience, func() bool { return !libraryRuns() })
		if stuck || !gone || open != want {
			givenUp++
		}
		emit(E{"op": "rivals", "ops": ops, "is": is, "open": open, "stuck": stuck, "gone": gone, "panic": ""})
		w.p.lock.Lock()
		for _, x := range w.p.conns {
			x.c.Close()
		}
		w.p.lock.Unlock()
		w.stuck = true
		w.end()
	}
}

type hook struct{ f func() }

func (h *hook) Receive(interface{}, errors.Error) { h.f() }

// ---- C31: from the bytes to the tree ----

func suiteClientStreams() {
	n := 0
	var w *cworld
	cases(func(raw json.RawMessage) {
		n++
		if n%*parts != *whichPart {
			return
		}
		var c struct {
			In    []int
			Kreqs int
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		w = newClientWorld()
		value := newElem("param", false, 1)
		value.Has, value.F = true, []Field{{2, "int", []int{0, 0, 0, 0, 0, 0, 0, 99}}}
		w.boot([]*Elem{value})
		w.step(cstep{Do: "listen", L: 2, Pos: []int{1}})
		in := make([]byte, len(c.In))
		for i, x := range c.In {
			in[i] = byte(x)
		}
		w.step(cstep{Do: "stream", In: in, N: c.Kreqs})
		if rng.Intn(4) == 0 {
			w.step(cstep{Do: "get", L: 3, Pos: []int{1}})
			w.step(cstep{Do: "stream", In: packet(0xc0, plainEnc().msg([]*Elem{newElem("node", false, 3)}))})
		}
		w.end()
	})
	for i := 0; i < partly(pick(600, 20000)); i++ {
		w := newClientWorld()
		w.enc = []func() *enc{plainEnc, indefEnc, func() *enc { return mixedEnc(true) }}[rng.Intn(3)]
		w.randomStreams()
		w.end()
	}
	for i := 0; i < partly(pick(8, 80)); i++ {
		w := newClientWorld()
		w.enc = []func() *enc{plainEnc, indefEnc}[rng.Intn(2)]
		w.bursts()
		w.end()
	}
}

// bursts sends more than the client can read at once, while a callback keeps it from reading.
func (w *cworld) bursts() {
	w.boot([]*Elem{newElem("node", false, 1)})
	in, kreqs := bytes.Join(packets(plainEnc().msg([]*Elem{}), 1), nil), 0
	for size := 70000 + rng.Intn(90000); len(in) < size; {
		d := newElem("param", false, 2+kreqs)
		d.Has, d.F = true, []Field{{0, "str", letters(1000 + rng.Intn(20000))}}
		in = append(in, bytes.Join(packets(w.enc().msg([]*Elem{d}), 1+rng.Intn(30)), nil)...)
		in = append(in, keepAlive(1)...)
		kreqs++
	}
	w.step(cstep{Do: "react", L: 9, What: "sleep", N: 30})
	w.step(cstep{Do: "stream", In: in, N: kreqs})
}

// letters are the bytes of a text.
func letters(n int) []int {
	t := make([]int, n)
	for i := range t {
		t[i] = 97 + rng.Intn(26)
	}
	return t
}

func (w *cworld) randomStreams() {
	g := &gen{strMax: 6, maxKids: 2, noCmd: true, fill: 1}
	w.boot(w.w.message(g))
	for m := 3 + rng.Intn(6); m > 0; m-- {
		switch rng.Intn(8) {
		case 0:
			w.step(cstep{Do: "get", L: 1 + rng.Intn(4), Pos: w.w.anyPos()})
		case 1:
			w.step(cstep{Do: []string{"listen", "listen", "unlisten"}[rng.Intn(3)], L: 1 + rng.Intn(4), Pos: w.w.anyPos()})
		case 2:
			if rng.Intn(3) == 0 {
				w.step(cstep{Do: []string{"disconnect", "pclose"}[rng.Intn(2)]})
				w.step(cstep{Do: "connect"})
			}
		default:
			in, kreqs := []byte{}, 0
			for n := 1 + rng.Intn(5); n > 0; n-- {
				p := packets(w.enc().msg(w.w.message(g)), []int{1, 1, 2, 3}[rng.Intn(4)])
				hurt := -1
				if rng.Intn(3) == 0 {
					hurt = rng.Intn(len(p))
				}
				for i, f := range p {
					if rng.Intn(5) == 0 {
						kreqs++
						in = append(in, keepAlive(1)...)
					}
					if i != hurt {
						in = append(in, f...)
						continue
					}
					switch rng.Intn(8) {
					case 0, 1, 2:
						in = append(in, corrupt(f)...)
					case 3: // lost
					case 4: // twice
						in = append(append(in, f...), f...)
					case 5:
						in = append(in, f[:1+rng.Intn(len(f)-1)]...)
					case 6:
						in = append(append(in, f...), payload(rng.Intn(4))...)
					case 7: // a message that ends early
						m := w.enc().msg(w.w.message(g))
						in = append(in, packet(0xc0, m[:rng.Intn(len(m)/(1+rng.Intn(2)))])...)
					}
				}
			}
			w.step(cstep{Do: "stream", In: in, N: kreqs})
		}
	}
}
