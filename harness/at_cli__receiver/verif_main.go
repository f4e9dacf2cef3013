package main

import (
	"context"
	"io"
	"net"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/internal/verifh/cliflags"
	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	"github.com/ElectroUnion/egts-gate/internal/verifh/logcap"
	sl "github.com/ElectroUnion/egts-gate/internal/verifh/storelib"
	yf "github.com/ElectroUnion/egts-gate/internal/verifh/yamlfile"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	vlog "github.com/sirupsen/logrus"
)

type verifAddr string

func (a verifAddr) Network() string { return "tcp" }
func (a verifAddr) String() string  { return string(a) }

type verifTimeout struct{}

func (verifTimeout) Error() string   { return "i/o timeout" }
func (verifTimeout) Timeout() bool   { return true }
func (verifTimeout) Temporary() bool { return true }

// verifConn is the one connection the receiver gets: a peer that sends a packet and falls silent.
type verifConn struct {
	mu     sync.Mutex
	in     []byte
	out    []byte
	closed bool
	rdl    time.Time
	silent time.Duration
}

func (c *verifConn) Read(p []byte) (int, error) {
	rt.Yield()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	if n > 0 || len(p) == 0 {
		return n, nil
	}
	if c.rdl.IsZero() {
		return 0, io.EOF
	}
	c.silent = time.Until(c.rdl)
	return 0, verifTimeout{}
}

func (c *verifConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *verifConn) Close() error {
	c.mu.Lock()
	c.closed = true
	c.mu.Unlock()
	rt.Wake()
	return nil
}
func (c *verifConn) LocalAddr() net.Addr                { return verifAddr("127.0.0.1:1") }
func (c *verifConn) RemoteAddr() net.Addr               { return verifAddr("127.0.0.1:2") }
func (c *verifConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *verifConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *verifConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	return nil
}

type verifLis struct {
	c    *verifConn
	next int
}

func (l *verifLis) Accept() (net.Conn, error) {
	if l.next == 0 {
		l.next = 1
		return l.c, nil
	}
	for {
		l.c.mu.Lock()
		done := l.c.closed
		l.c.mu.Unlock()
		if done {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		rt.Park()
	}
}
func (l *verifLis) Close() error   { return nil }
func (l *verifLis) Addr() net.Addr { return verifAddr("127.0.0.1:1") }

var (
	verifC       *verifConn
	verifListens []string
	verifBusy    bool
)

//verif:redirect (*net.ListenConfig).Listen
func VerifListenConfig(c *net.ListenConfig, ctx context.Context, network, address string) (net.Listener, error) {
	return VerifListenTCP(network, address)
}

//verif:redirect net.Listen
func VerifListenTCP(network, address string) (net.Listener, error) {
	verifListens = append(verifListens, address)
	if verifBusy || network != "tcp" {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: net.ErrClosed}
	}
	return &verifLis{c: verifC}, nil
}

func verifPlain(name string, n int) string {
	s := rt.String(name, n)
	for i := 0; i < n; i++ {
		rt.Assume(rt.And(s[i] >= 'a', s[i] <= 'z'))
	}
	return s
}

// VerifMain: the receiver does what the configuration file says.
func VerifMain() {
	verifC, verifListens = &verifConn{}, nil
	logcap.Reset()
	w := sl.New()
	f := &yf.File{}
	noPath := false
	trouble := rt.Choose("trouble", 5)
	switch trouble {
	case 1:
		noPath = true
	case 2:
		f.Missing = true
	case 3:
		f.Malformed = true
	case 4:
		verifBusy = true
	}
	defer func() { verifBusy = false }()
	host, port := verifPlain("host", rt.Choose("hl", 3)), verifPlain("port", 2)
	ttl := int(rt.U16("ttl"))
	lvl := []string{"DEBUG", "INFO", "WARN", "ERROR", "x"}[rt.Choose("lvl", 5)]
	f.Entries = []yf.Entry{{Key: "host", Kind: 's', S: host}, {Key: "port", Kind: 's', S: port}, {Key: "conn_ttl", Kind: 'i', I: ttl}, {Key: "log_level", Kind: 's', S: lvl}}
	store := rt.Choose("store", 5)
	topic := verifPlain("topic", 2)
	redis := map[string]string{"server": "redis:6379", "queue": topic}
	nats := map[string]string{"servers": "nats:1", "topic": topic}
	secs := map[string]map[string]string{}
	switch store {
	case 1:
		secs["redis"] = redis
	case 2:
		secs["redis"], secs["nats"] = redis, nats
	case 3:
		secs["nats"] = nats
		w.FailAt[sl.Nats] = 1
	case 4:
		secs["mysql"] = nats
	}
	f.Entries = append(f.Entries, yf.Entry{Key: "storage", Kind: 'm', M: secs})
	oid := rt.U32("oid")
	verifC.in = cm.Packet(rt.U16("pid"), 1, cm.Record(rt.U16("rn"), 1, []uint32{oid}, nil, nil, 2, 2,
		cm.Sub(16, cm.New().U32(rt.U32("ntm")).U32(0x12345678).U32(0x9ABCDEF0).U8(0x1F).U16(rt.U16("spd")).U8(0).U24(0).U8(0).U8(0).Bytes())))
	args := []cliflags.Arg{{Name: "c", Kind: 's', S: f.Place()}}
	if noPath {
		args = nil
	}
	code := cliflags.Run(main, args...)
	f.Remove()
	rt.WaitIdle()
	rt.Emit("end", uint64(code), uint64(len(verifListens)), uint64(len(w.Puts)))
	if trouble != 0 {
		rt.Assert(code != 0, "a receiver that cannot start ends with an error")
		rt.Assert(trouble == 4 || len(verifListens) == 0, "a receiver without configuration does not listen")
		rt.Cover("trouble")
		return
	}
	rt.Assert(code == 0, "the receiver runs until it is stopped")
	rt.Assert(len(verifListens) == 1 && rt.EqStr(verifListens[0], host+":"+port), "the receiver listens on host:port")
	want := map[string]vlog.Level{"DEBUG": vlog.DebugLevel, "INFO": vlog.InfoLevel, "WARN": vlog.WarnLevel, "ERROR": vlog.ErrorLevel, "x": vlog.InfoLevel}[lvl]
	rt.Assert(logcap.Level() == want, "the log level is the configured one")
	rt.Assert(verifC.closed && len(verifC.out) > 0, "the packet is answered")
	if ttl > 0 {
		slack := time.Duration(0)
		if !rt.Symbolic() {
			slack = 300 * time.Millisecond
		}
		d := verifC.silent - time.Duration(ttl)*time.Second
		rt.Assert(rt.And(d <= slack, d >= -slack), "a silent connection is closed after conn_ttl seconds")
	} else {
		rt.Assert(verifC.rdl.IsZero(), "conn_ttl 0 sets no limit")
	}
	puts := 0
	switch store {
	case 1:
		puts = 1
	case 2:
		puts = 2
	}
	rt.Assert(len(w.Puts) == puts, "each configured store gets the record")
	for _, p := range w.Puts {
		rt.Assert(rt.EqStr(p.Dest, topic), "the record goes where the configuration says")
		d, err := sl.Read(p.Body)
		rt.Assert(err == nil && d.Int("client_id", uint64(oid)), "the record stored is that of the packet")
	}
	texts := logcap.Objects()
	for _, s := range texts {
		d, err := sl.Read([]byte(s))
		rt.Assert(err == nil && d.Int("client_id", uint64(oid)), "the record printed is that of the packet")
	}
	if puts == 0 {
		// at the levels that show information
		rt.Assert(len(texts) == 1 || want < vlog.InfoLevel && len(texts) == 0, "without a usable store records are printed")
	} else {
		rt.Assert(len(texts) == 0, "with a store records are not printed")
	}
	rt.Cover("running")
}
