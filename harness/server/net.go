// Package server holds the harnesses for the receiving server: the real accept loop and connection
// handler run over modelled listeners and connections.
package server

import (
	"context"
	"errors"
	"io"
	"net"
	"sync"
	"time"

	srv "github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	"github.com/golang/protobuf/proto"
)

// world is the environment of one server.
type world struct {
	mu    sync.Mutex
	conns []*conn
	next  int
	// refuse makes the listener report this many transient errors before the connections
	refuse   int
	closed   bool
	accepts  int
	runDone  bool
	events   []string
	rec      *recorder
	gated    bool
	waiting  []*gate
	listenOn string
	ttl      time.Duration
	start    time.Time
	// the moments the (symbolic) clock stood at
	instants []time.Time
	srv      *srv.Server
	// free listens instead, for connections that run freely
	free *freeLis
}

type gate struct {
	who     int
	what    string
	granted bool
}

var cur *world

// hold waits for the harness to let the operation happen (gated worlds only).
func (w *world) hold(who int, what string) {
	rt.Yield()
	if !w.gated {
		return
	}
	g := &gate{who: who, what: what}
	w.mu.Lock()
	w.waiting = append(w.waiting, g)
	w.mu.Unlock()
	for {
		w.mu.Lock()
		ok := g.granted
		w.mu.Unlock()
		if ok {
			return
		}
		rt.Park()
	}
}

// step lets one of the waiting operations happen, every choice being explored; false when none waits.
func (w *world) step() bool {
	rt.WaitIdle()
	w.mu.Lock()
	// goroutines arrive in any order natively
	for i := 0; i < len(w.waiting); i++ {
		for j := i + 1; j < len(w.waiting); j++ {
			if w.waiting[j].who < w.waiting[i].who {
				w.waiting[i], w.waiting[j] = w.waiting[j], w.waiting[i]
			}
		}
	}
	n := len(w.waiting)
	w.mu.Unlock()
	if n == 0 {
		return false
	}
	w.grant(rt.Choose("next", n))
	return true
}

// stepAll lets all the operations happen that wait now; false when none waits.
func (w *world) stepAll() bool {
	rt.WaitIdle()
	w.mu.Lock()
	n := len(w.waiting)
	w.mu.Unlock()
	for i := 0; i < n; i++ {
		w.grant(0)
	}
	return n > 0
}

// stepAllBut lets all the operations of other kinds happen that wait now; false when there are none.
func (w *world) stepAllBut(what string) bool {
	rt.WaitIdle()
	did := false
	for k := 0; ; {
		w.mu.Lock()
		n := len(w.waiting)
		skip := k < n && w.waiting[k].what == what
		w.mu.Unlock()
		switch {
		case k >= n:
			return did
		case skip:
			k++
		default:
			w.grant(k)
			did = true
		}
	}
}

// stepOf lets the waiting operation of one connection happen; false when it has none.
func (w *world) stepOf(id int) bool {
	rt.WaitIdle()
	w.mu.Lock()
	k := -1
	for i, g := range w.waiting {
		if g.who == id {
			k = i
		}
	}
	w.mu.Unlock()
	if k < 0 {
		return false
	}
	w.grant(k)
	return true
}

func (w *world) grant(k int) {
	w.mu.Lock()
	g := w.waiting[k]
	w.waiting = append(append([]*gate(nil), w.waiting[:k]...), w.waiting[k+1:]...)
	g.granted = true
	w.mu.Unlock()
	rt.Wake()
}

func (w *world) event(s string) {
	w.events = append(w.events, s)
	rt.Yield()
}

type lis struct{ w *world }

var errTransient = errors.New("accept: too many open files")

func (l lis) Accept() (net.Conn, error) {
	w := l.w
	for {
		w.mu.Lock()
		if w.closed {
			w.mu.Unlock()
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if w.next < len(w.conns) {
			if w.refuse > 0 {
				w.refuse--
				w.mu.Unlock()
				return nil, errTransient
			}
			c := w.conns[w.next]
			w.next++
			w.accepts++
			w.mu.Unlock()
			rt.Yield()
			return c, nil
		}
		w.mu.Unlock()
		rt.Park()
	}
}

func (l lis) Close() error {
	l.w.mu.Lock()
	l.w.closed = true
	l.w.mu.Unlock()
	rt.Wake()
	return nil
}

func (l lis) Addr() net.Addr { return addr(l.w.listenOn) }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

// conn is a connection whose peer sends the given segments.
type conn struct {
	w    *world
	id   int
	segs [][]byte
	// idle: after the segments the peer neither sends nor closes
	idle bool
	// ended: the end of the stream was read
	ended bool
	// broken: after the segments the connection fails
	broken bool
	// deaf: writing fails
	deaf   bool
	out    []byte
	writes [][]byte
	closed bool
	rdl    time.Time
	wdl    time.Time
	// deadline observations
	reads     int
	noDL      bool
	earlyDL   bool
	lateDL    bool
	timedOut  bool
	afterDone bool
}

func (c *conn) Read(p []byte) (int, error) {
	c.w.mu.Lock()
	if c.w.ttl > 0 && len(p) > 0 {
		c.reads++
		if c.rdl.IsZero() {
			c.noDL = true
		} else {
			left := time.Until(c.rdl)
			slack := time.Duration(0)
			if !rt.Symbolic() {
				slack = 400 * time.Millisecond
			}
			if left < c.w.ttl-slack {
				c.earlyDL = true
			}
			if left > c.w.ttl+slack {
				c.lateDL = true
			}
		}
	} else if !c.rdl.IsZero() {
		c.earlyDL = true
	}
	c.w.mu.Unlock()
	c.w.hold(c.id, "read")
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
		c.timedOut = true
		return 0, timeoutError{}
	}
	for !c.closed {
		for len(c.segs) > 0 && len(c.segs[0]) == 0 {
			c.segs = c.segs[1:]
		}
		if len(c.segs) > 0 {
			n := copy(p, c.segs[0])
			c.segs[0] = c.segs[0][n:]
			return n, nil
		}
		if c.broken {
			return 0, errors.New("connection reset by peer")
		}
		if !c.idle {
			c.ended = true
			return 0, io.EOF
		}
		if !c.rdl.IsZero() {
			c.timedOut = true
			return 0, timeoutError{}
		}
		c.w.mu.Unlock()
		rt.Park()
		c.w.mu.Lock()
	}
	return 0, net.ErrClosed
}

func (c *conn) Write(p []byte) (int, error) {
	c.w.hold(c.id, "write")
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.deaf {
		return 0, errors.New("broken pipe")
	}
	if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
		return 0, timeoutError{}
	}
	c.out = append(c.out, p...)
	c.writes = append(c.writes, append([]byte(nil), p...))
	c.w.event("write")
	return len(p), nil
}

func (c *conn) Close() error {
	c.w.mu.Lock()
	c.closed = true
	c.w.mu.Unlock()
	rt.Wake()
	return nil
}

// hangUp: the peer closes.
func (c *conn) hangUp() {
	c.w.mu.Lock()
	c.idle = false
	c.w.mu.Unlock()
	rt.Wake()
}

func (c *conn) LocalAddr() net.Addr  { return addr("127.0.0.1:6000") }
func (c *conn) RemoteAddr() net.Addr { return addr("127.0.0.1:40000") }
func (c *conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}
func (c *conn) SetReadDeadline(t time.Time) error {
	c.w.mu.Lock()
	c.rdl = t
	c.w.mu.Unlock()
	rt.Wake()
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error {
	c.w.mu.Lock()
	c.wdl = t
	c.w.mu.Unlock()
	return nil
}

//verif:redirect (*net.ListenConfig).Listen
func VerifListenConfig(c *net.ListenConfig, ctx context.Context, network, address string) (net.Listener, error) {
	return VerifListen(network, address)
}

// VerifSleep: short pauses (between attempts, say) simply take their time; long ones last until the time has come.
//
//verif:redirect time.Sleep
func VerifSleep(d time.Duration) {
	if d <= 2*time.Second {
		rt.Busy(1)
		time.Sleep(d)
		cur.mu.Lock()
		cur.instants = append(cur.instants, time.Now())
		cur.mu.Unlock()
		rt.Busy(-1)
		return
	}
	if !rt.Symbolic() {
		time.Sleep(d)
		return
	}
	for end := time.Now().Add(d); time.Now().Before(end); {
		rt.Park()
	}
}

// VerifListen stands in for the operating system's listener.
//
//verif:redirect net.Listen
func VerifListen(network, address string) (net.Listener, error) {
	w := cur
	if w.free != nil {
		return w.free, nil
	}
	w.listenOn = address
	return lis{w}, nil
}

// recorder is a store that keeps what it is given.
type recorder struct {
	w    *world
	ptrs []*storage.NavRecord
	recs []storage.NavRecord
	who  []int
	fail bool
	bad  bool
}

func cloneRec(n *storage.NavRecord) storage.NavRecord {
	c := *n
	c.AnSensors = append([]storage.AnSensor(nil), n.AnSensors...)
	c.LiquidSensors = append([]storage.LiquidSensor(nil), n.LiquidSensors...)
	c.LocStates = append([]storage.LocState(nil), n.LocStates...)
	return c
}

func (r *recorder) Save(m interface{ ToBytes() ([]byte, error) }) error {
	n, ok := m.(*storage.NavRecord)
	if !ok {
		r.bad = true
		return nil
	}
	who := 1000
	if r.w.gated {
		// in gated worlds connection i reports on client i+1
		who = rt.Concrete(int(n.ClientID)) - 1
	}
	r.w.hold(who, "save")
	r.w.mu.Lock()
	defer r.w.mu.Unlock()
	r.who = append(r.who, who)
	r.ptrs = append(r.ptrs, n)
	r.recs = append(r.recs, cloneRec(n))
	r.w.event("save")
	if r.fail {
		return errors.New("store is down")
	}
	return nil
}

func newWorld(ttl time.Duration) *world {
	w := &world{ttl: ttl, start: time.Now()}
	w.instants = []time.Time{w.start}
	w.rec = &recorder{w: w}
	return w
}

func (w *world) add(segs ...[]byte) *conn {
	c := &conn{w: w, id: len(w.conns)}
	for _, s := range segs {
		c.segs = append(c.segs, append([]byte(nil), s...))
	}
	w.mu.Lock()
	w.conns = append(w.conns, c)
	w.mu.Unlock()
	rt.Wake()
	return c
}

// feed lets an idle peer send more.
func (c *conn) feed(b []byte) {
	c.w.mu.Lock()
	c.segs = append(c.segs, append([]byte(nil), b...))
	c.w.mu.Unlock()
	rt.Wake()
	rt.WaitIdle()
}

// run starts the server on the world.
func (w *world) run() {
	cur = w
	repo := storage.NewRepository()
	repo.AddStore(w.rec)
	s := srv.New("127.0.0.1:6000", w.ttl, repo)
	w.srv = &s
	go func() {
		w.srv.Run()
		w.mu.Lock()
		w.runDone = true
		w.mu.Unlock()
		rt.Wake()
	}()
	rt.WaitIdle()
}

func (w *world) finish() {
	rt.WaitIdle()
	w.mu.Lock()
	w.gated = false
	for _, g := range w.waiting {
		g.granted = true
	}
	w.mu.Unlock()
	w.srv.Stop()
	w.mu.Lock()
	for _, c := range w.conns {
		c.closed = true
	}
	w.mu.Unlock()
	rt.Wake()
	rt.WaitIdle()
}

// advance lets time pass.
func (w *world) advance(d time.Duration) {
	rt.Advance(int64(d))
	rt.Wake()
	w.instants = append(w.instants, time.Now())
}

// VerifUnmarshal stands in for the protobuf library (vendor subrecord type 15): any verdict.
//
//verif:redirect github.com/golang/protobuf/proto.Unmarshal
func VerifUnmarshal(b []byte, m proto.Message) error {
	if rt.Choose("protobuf", 2) == 1 {
		return errors.New("proto: cannot parse")
	}
	return nil
}
